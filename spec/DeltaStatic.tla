----------------------------- MODULE DeltaStatic -----------------------------
(* Data of the delta format: the 65 default key/values (numbers 1..65, in this  *)
(* order) and the two Huffman trees (see HuffTree).                             *)
EXTENDS Naturals, Integers, Sequences

DefaultKVs == <<
  <<<<58,112,97,116,104>>, <<47>>>>,
  <<<<58,115,99,104,101,109,101>>, <<104,116,116,112>>>>,
  <<<<58,115,99,104,101,109,101>>, <<104,116,116,112,115>>>>,
  <<<<58,109,101,116,104,111,100>>, <<103,101,116>>>>,
  <<<<58,104,111,115,116>>, <<>>>>,
  <<<<99,111,111,107,105,101>>, <<>>>>,
  <<<<58,115,116,97,116,117,115>>, <<50,48,48>>>>,
  <<<<58,115,116,97,116,117,115,45,116,101,120,116>>, <<79,75>>>>,
  <<<<58,118,101,114,115,105,111,110>>, <<49,46,49>>>>,
  <<<<97,99,99,101,112,116>>, <<>>>>,
  <<<<97,99,99,101,112,116,45,99,104,97,114,115,101,116>>, <<>>>>,
  <<<<97,99,99,101,112,116,45,101,110,99,111,100,105,110,103>>, <<>>>>,
  <<<<97,99,99,101,112,116,45,108,97,110,103,117,97,103,101>>, <<>>>>,
  <<<<97,99,99,101,112,116,45,114,97,110,103,101,115>>, <<>>>>,
  <<<<97,108,108,111,119>>, <<>>>>,
  <<<<97,117,116,104,111,114,105,122,97,116,105,111,110,115>>, <<>>>>,
  <<<<99,97,99,104,101,45,99,111,110,116,114,111,108>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,98,97,115,101>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,101,110,99,111,100,105,110,103>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,108,111,99,97,116,105,111,110>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,109,100,53>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,114,97,110,103,101>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,116,121,112,101>>, <<>>>>,
  <<<<100,97,116,101>>, <<>>>>,
  <<<<101,116,97,103>>, <<>>>>,
  <<<<101,120,112,101,99,116>>, <<>>>>,
  <<<<101,120,112,105,114,101,115>>, <<>>>>,
  <<<<102,114,111,109>>, <<>>>>,
  <<<<105,102,45,109,97,116,99,104>>, <<>>>>,
  <<<<105,102,45,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>, <<>>>>,
  <<<<105,102,45,110,111,110,101,45,109,97,116,99,104>>, <<>>>>,
  <<<<105,102,45,114,97,110,103,101>>, <<>>>>,
  <<<<105,102,45,117,110,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>, <<>>>>,
  <<<<108,97,115,116,45,109,111,100,105,102,105,101,100>>, <<>>>>,
  <<<<108,111,99,97,116,105,111,110>>, <<>>>>,
  <<<<109,97,120,45,102,111,114,119,97,114,100,115>>, <<>>>>,
  <<<<111,114,105,103,105,110>>, <<>>>>,
  <<<<112,114,97,103,109,97>>, <<>>>>,
  <<<<112,114,111,120,121,45,97,117,116,104,101,110,116,105,99,97,116,101>>, <<>>>>,
  <<<<112,114,111,120,121,45,97,117,116,104,111,114,105,122,97,116,105,111,110>>, <<>>>>,
  <<<<114,97,110,103,101>>, <<>>>>,
  <<<<114,101,102,101,114,101,114>>, <<>>>>,
  <<<<114,101,116,114,121,45,97,102,116,101,114>>, <<>>>>,
  <<<<115,101,114,118,101,114>>, <<>>>>,
  <<<<115,101,116,45,99,111,111,107,105,101>>, <<>>>>,
  <<<<115,116,97,116,117,115>>, <<>>>>,
  <<<<116,101>>, <<>>>>,
  <<<<116,114,97,105,108,101,114>>, <<>>>>,
  <<<<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>, <<>>>>,
  <<<<117,112,103,114,97,100,101>>, <<>>>>,
  <<<<117,115,101,114,45,97,103,101,110,116>>, <<>>>>,
  <<<<118,97,114,121>>, <<>>>>,
  <<<<118,105,97>>, <<>>>>,
  <<<<119,97,114,110,105,110,103>>, <<>>>>,
  <<<<119,119,119,45,97,117,116,104,101,110,116,105,99,97,116,101>>, <<>>>>,
  <<<<97,99,99,101,115,115,45,99,111,110,116,114,111,108,45,97,108,108,111,119,45,111,114,105,103,105,110>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,100,105,115,112,111,115,105,116,105,111,110>>, <<>>>>,
  <<<<103,101,116,45,100,105,99,116,105,111,110,97,114,121>>, <<>>>>,
  <<<<112,51,112>>, <<>>>>,
  <<<<120,45,99,111,110,116,101,110,116,45,116,121,112,101,45,111,112,116,105,111,110,115>>, <<>>>>,
  <<<<120,45,102,114,97,109,101,45,111,112,116,105,111,110,115>>, <<>>>>,
  <<<<120,45,112,111,119,101,114,101,100,45,98,121>>, <<>>>>,
  <<<<120,45,120,115,115,45,112,114,111,116,101,99,116,105,111,110>>, <<>>>>,
  <<<<99,111,110,110,101,99,116,105,111,110>>, <<107,101,101,112,45,97,108,105,118,101>>>>
 >>

HuffReq1 == <<
  <<2,34>>, <<3,17>>, <<4,9>>, <<-102,5>>, <<-113,6>>, <<7,-118>>, <<8,-108>>, <<-88,-79>>, <<10,15>>, <<11,-115>>,
  <<-257,12>>, <<13,14>>, <<-114,-73>>, <<-83,-123>>, <<-52,16>>, <<-105,-46>>, <<18,30>>, <<19,22>>, <<20,-47>>,
  <<21,-38>>, <<-69,-122>>, <<23,-111>>, <<24,28>>, <<25,27>>, <<-70,26>>, <<-59,-91>>, <<-87,-77>>, <<-121,29>>,
  <<-81,-86>>, <<31,32>>, <<-49,-100>>, <<-106,33>>, <<-99,-56>>, <<35,236>>, <<36,227>>, <<37,38>>, <<-112,-50>>,
  <<39,226>>, <<-39,40>>, <<-119,41>>, <<42,43>>, <<-90,-75>>, <<-60,44>>, <<45,224>>, <<46,222>>, <<47,221>>,
  <<48,49>>, <<-44,-127>>, <<50,51>>, <<-40,-92>>, <<-94,52>>, <<53,-37>>, <<54,117>>, <<55,86>>, <<56,71>>,
  <<57,64>>, <<58,61>>, <<59,60>>, <<-170,-171>>, <<-172,-173>>, <<62,63>>, <<-174,-175>>, <<-176,-177>>,
  <<65,68>>, <<66,67>>, <<-178,-179>>, <<-180,-181>>, <<69,70>>, <<-182,-183>>, <<-184,-185>>, <<72,79>>,
  <<73,76>>, <<74,75>>, <<-186,-187>>, <<-188,-189>>, <<77,78>>, <<-190,-191>>, <<-192,-193>>, <<80,83>>,
  <<81,82>>, <<-194,-195>>, <<-196,-197>>, <<84,85>>, <<-198,-199>>, <<-200,-201>>, <<87,102>>, <<88,95>>,
  <<89,92>>, <<90,91>>, <<-202,-203>>, <<-204,-205>>, <<93,94>>, <<-206,-207>>, <<-208,-209>>, <<96,99>>,
  <<97,98>>, <<-210,-211>>, <<-212,-213>>, <<100,101>>, <<-214,-215>>, <<-216,-217>>, <<103,110>>, <<104,107>>,
  <<105,106>>, <<-218,-219>>, <<-220,-221>>, <<108,109>>, <<-222,-223>>, <<-224,-225>>, <<111,114>>, <<112,113>>,
  <<-226,-227>>, <<-228,-229>>, <<115,116>>, <<-230,-231>>, <<-232,-233>>, <<118,158>>, <<119,134>>, <<120,127>>,
  <<121,124>>, <<122,123>>, <<-234,-235>>, <<-236,-237>>, <<125,126>>, <<-238,-239>>, <<-240,-241>>, <<128,131>>,
  <<129,130>>, <<-242,-243>>, <<-244,-245>>, <<132,133>>, <<-246,-247>>, <<-248,-249>>, <<135,143>>, <<136,139>>,
  <<137,138>>, <<-250,-251>>, <<-252,-253>>, <<140,141>>, <<-254,-255>>, <<-256,142>>, <<-1,-2>>, <<144,151>>,
  <<145,148>>, <<146,147>>, <<-3,-4>>, <<-5,-6>>, <<149,150>>, <<-7,-8>>, <<-9,-10>>, <<152,155>>, <<153,154>>,
  <<-11,-12>>, <<-13,-14>>, <<156,157>>, <<-15,-16>>, <<-17,-18>>, <<159,190>>, <<160,175>>, <<161,168>>,
  <<162,165>>, <<163,164>>, <<-19,-20>>, <<-21,-22>>, <<166,167>>, <<-23,-24>>, <<-25,-26>>, <<169,172>>,
  <<170,171>>, <<-27,-28>>, <<-29,-30>>, <<173,174>>, <<-31,-32>>, <<-35,-36>>, <<176,183>>, <<177,180>>,
  <<178,179>>, <<-61,-63>>, <<-65,-93>>, <<181,182>>, <<-95,-97>>, <<-128,-129>>, <<184,187>>, <<185,186>>,
  <<-130,-131>>, <<-132,-133>>, <<188,189>>, <<-134,-135>>, <<-136,-137>>, <<191,206>>, <<192,199>>, <<193,196>>,
  <<194,195>>, <<-138,-139>>, <<-140,-141>>, <<197,198>>, <<-142,-143>>, <<-144,-145>>, <<200,203>>, <<201,202>>,
  <<-146,-147>>, <<-148,-149>>, <<204,205>>, <<-150,-151>>, <<-152,-153>>, <<207,214>>, <<208,211>>, <<209,210>>,
  <<-154,-155>>, <<-156,-157>>, <<212,213>>, <<-158,-159>>, <<-160,-161>>, <<215,218>>, <<216,217>>, <<-162,-163>>,
  <<-164,-165>>, <<219,220>>, <<-166,-167>>, <<-168,-169>>, <<-34,-124>>, <<223,-43>>, <<-125,-126>>, <<-33,225>>,
  <<-41,-42>>, <<-96,-58>>, <<228,229>>, <<-117,-51>>, <<230,235>>, <<231,234>>, <<232,-107>>, <<-85,233>>,
  <<-89,-64>>, <<-66,-103>>, <<-54,-57>>, <<237,244>>, <<238,242>>, <<-116,239>>, <<240,-109>>, <<-45,241>>,
  <<-67,-72>>, <<-98,243>>, <<-62,-55>>, <<245,251>>, <<246,-48>>, <<247,-53>>, <<248,249>>, <<-74,-84>>,
  <<-71,250>>, <<-76,-78>>, <<252,256>>, <<-104,253>>, <<254,-120>>, <<-68,255>>, <<-80,-82>>, <<-101,-110>>
>>

HuffRes1 == <<
  <<2,32>>, <<3,15>>, <<4,8>>, <<-51,5>>, <<6,-57>>, <<7,-72>>, <<-70,-84>>, <<-50,9>>, <<10,-100>>, <<-109,11>>,
  <<12,14>>, <<-73,13>>, <<-39,-44>>, <<-87,-123>>, <<16,22>>, <<-33,17>>, <<18,-53>>, <<19,-103>>, <<20,21>>,
  <<-90,-114>>, <<-82,-77>>, <<23,28>>, <<-52,24>>, <<25,27>>, <<-119,26>>, <<-83,-76>>, <<-69,-105>>, <<29,31>>,
  <<-78,30>>, <<-121,-68>>, <<-46,-118>>, <<33,235>>, <<34,39>>, <<35,37>>, <<36,-257>>, <<-104,-115>>, <<38,-98>>,
  <<-45,-85>>, <<40,46>>, <<41,-102>>, <<42,44>>, <<-71,43>>, <<-81,-74>>, <<-47,45>>, <<-86,-122>>, <<47,232>>,
  <<-116,48>>, <<49,231>>, <<50,-107>>, <<51,230>>, <<52,-38>>, <<-1,53>>, <<54,57>>, <<55,56>>, <<-124,-126>>,
  <<-92,-94>>, <<-64,58>>, <<-125,59>>, <<60,-36>>, <<61,-43>>, <<62,-40>>, <<63,126>>, <<64,95>>, <<65,80>>,
  <<66,73>>, <<67,70>>, <<68,69>>, <<-170,-171>>, <<-172,-173>>, <<71,72>>, <<-174,-175>>, <<-176,-177>>,
  <<74,77>>, <<75,76>>, <<-178,-179>>, <<-180,-181>>, <<78,79>>, <<-182,-183>>, <<-184,-185>>, <<81,88>>,
  <<82,85>>, <<83,84>>, <<-186,-187>>, <<-188,-189>>, <<86,87>>, <<-190,-191>>, <<-192,-193>>, <<89,92>>,
  <<90,91>>, <<-194,-195>>, <<-196,-197>>, <<93,94>>, <<-198,-199>>, <<-200,-201>>, <<96,111>>, <<97,104>>,
  <<98,101>>, <<99,100>>, <<-202,-203>>, <<-204,-205>>, <<102,103>>, <<-206,-207>>, <<-208,-209>>, <<105,108>>,
  <<106,107>>, <<-210,-211>>, <<-212,-213>>, <<109,110>>, <<-214,-215>>, <<-216,-217>>, <<112,119>>, <<113,116>>,
  <<114,115>>, <<-218,-219>>, <<-220,-221>>, <<117,118>>, <<-222,-223>>, <<-224,-225>>, <<120,123>>, <<121,122>>,
  <<-226,-227>>, <<-228,-229>>, <<124,125>>, <<-230,-231>>, <<-232,-233>>, <<127,167>>, <<128,143>>, <<129,136>>,
  <<130,133>>, <<131,132>>, <<-234,-235>>, <<-236,-237>>, <<134,135>>, <<-238,-239>>, <<-240,-241>>, <<137,140>>,
  <<138,139>>, <<-242,-243>>, <<-244,-245>>, <<141,142>>, <<-246,-247>>, <<-248,-249>>, <<144,152>>, <<145,148>>,
  <<146,147>>, <<-250,-251>>, <<-252,-253>>, <<149,150>>, <<-254,-255>>, <<-256,151>>, <<-2,-3>>, <<153,160>>,
  <<154,157>>, <<155,156>>, <<-4,-5>>, <<-6,-7>>, <<158,159>>, <<-8,-9>>, <<-10,-11>>, <<161,164>>, <<162,163>>,
  <<-12,-13>>, <<-14,-15>>, <<165,166>>, <<-16,-17>>, <<-18,-19>>, <<168,199>>, <<169,184>>, <<170,177>>,
  <<171,174>>, <<172,173>>, <<-20,-21>>, <<-22,-23>>, <<175,176>>, <<-24,-25>>, <<-26,-27>>, <<178,181>>,
  <<179,180>>, <<-28,-29>>, <<-30,-31>>, <<182,183>>, <<-32,-34>>, <<-37,-61>>, <<185,192>>, <<186,189>>,
  <<187,188>>, <<-63,-65>>, <<-93,-95>>, <<190,191>>, <<-97,-127>>, <<-128,-129>>, <<193,196>>, <<194,195>>,
  <<-130,-131>>, <<-132,-133>>, <<197,198>>, <<-134,-135>>, <<-136,-137>>, <<200,215>>, <<201,208>>, <<202,205>>,
  <<203,204>>, <<-138,-139>>, <<-140,-141>>, <<206,207>>, <<-142,-143>>, <<-144,-145>>, <<209,212>>, <<210,211>>,
  <<-146,-147>>, <<-148,-149>>, <<213,214>>, <<-150,-151>>, <<-152,-153>>, <<216,223>>, <<217,220>>, <<218,219>>,
  <<-154,-155>>, <<-156,-157>>, <<221,222>>, <<-158,-159>>, <<-160,-161>>, <<224,227>>, <<225,226>>, <<-162,-163>>,
  <<-164,-165>>, <<228,229>>, <<-166,-167>>, <<-168,-169>>, <<-41,-42>>, <<-108,-88>>, <<-106,233>>, <<-110,234>>,
  <<-80,-67>>, <<236,244>>, <<237,240>>, <<238,239>>, <<-56,-55>>, <<-101,-48>>, <<241,243>>, <<242,-58>>,
  <<-62,-66>>, <<-117,-99>>, <<245,252>>, <<246,251>>, <<-112,247>>, <<248,250>>, <<-79,249>>, <<-60,-96>>,
  <<-75,-120>>, <<-59,-54>>, <<253,-49>>, <<-111,254>>, <<-113,255>>, <<256,-35>>, <<-89,-91>>
>>

=============================================================================

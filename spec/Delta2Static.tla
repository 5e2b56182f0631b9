---------------------------- MODULE Delta2Static ----------------------------
(* Data of the delta2 format: the 65 static key/values (sequence numbers 0..64, *)
(* in this order) and the two Huffman trees (see HuffTree).                     *)
EXTENDS Naturals, Integers, Sequences

StaticKVs == <<
  <<<<58,115,99,104,101,109,101>>, <<104,116,116,112>>>>,
  <<<<99,111,110,110,101,99,116,105,111,110>>, <<107,101,101,112,45,97,108,105,118,101>>>>,
  <<<<120,45,120,115,115,45,112,114,111,116,101,99,116,105,111,110>>, <<>>>>,
  <<<<120,45,112,111,119,101,114,101,100,45,98,121>>, <<>>>>,
  <<<<120,45,102,114,97,109,101,45,111,112,116,105,111,110,115>>, <<>>>>,
  <<<<120,45,99,111,110,116,101,110,116,45,116,121,112,101,45,111,112,116,105,111,110,115>>, <<>>>>,
  <<<<112,51,112>>, <<>>>>,
  <<<<103,101,116,45,100,105,99,116,105,111,110,97,114,121>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,100,105,115,112,111,115,105,116,105,111,110>>, <<>>>>,
  <<<<97,99,99,101,115,115,45,99,111,110,116,114,111,108,45,97,108,108,111,119,45,111,114,105,103,105,110>>, <<>>>>,
  <<<<119,119,119,45,97,117,116,104,101,110,116,105,99,97,116,101>>, <<>>>>,
  <<<<119,97,114,110,105,110,103>>, <<>>>>,
  <<<<118,105,97>>, <<>>>>,
  <<<<118,97,114,121>>, <<>>>>,
  <<<<117,115,101,114,45,97,103,101,110,116>>, <<>>>>,
  <<<<117,112,103,114,97,100,101>>, <<>>>>,
  <<<<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>, <<>>>>,
  <<<<116,114,97,105,108,101,114>>, <<>>>>,
  <<<<116,101>>, <<>>>>,
  <<<<115,116,97,116,117,115>>, <<>>>>,
  <<<<115,101,116,45,99,111,111,107,105,101>>, <<>>>>,
  <<<<115,101,114,118,101,114>>, <<>>>>,
  <<<<114,101,116,114,121,45,97,102,116,101,114>>, <<>>>>,
  <<<<114,101,102,101,114,101,114>>, <<>>>>,
  <<<<114,97,110,103,101>>, <<>>>>,
  <<<<112,114,111,120,121,45,97,117,116,104,111,114,105,122,97,116,105,111,110>>, <<>>>>,
  <<<<112,114,111,120,121,45,97,117,116,104,101,110,116,105,99,97,116,101>>, <<>>>>,
  <<<<112,114,97,103,109,97>>, <<>>>>,
  <<<<111,114,105,103,105,110>>, <<>>>>,
  <<<<109,97,120,45,102,111,114,119,97,114,100,115>>, <<>>>>,
  <<<<108,111,99,97,116,105,111,110>>, <<>>>>,
  <<<<108,97,115,116,45,109,111,100,105,102,105,101,100>>, <<>>>>,
  <<<<105,102,45,117,110,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>, <<>>>>,
  <<<<105,102,45,114,97,110,103,101>>, <<>>>>,
  <<<<105,102,45,110,111,110,101,45,109,97,116,99,104>>, <<>>>>,
  <<<<105,102,45,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>, <<>>>>,
  <<<<105,102,45,109,97,116,99,104>>, <<>>>>,
  <<<<102,114,111,109>>, <<>>>>,
  <<<<101,120,112,105,114,101,115>>, <<>>>>,
  <<<<101,120,112,101,99,116>>, <<>>>>,
  <<<<101,116,97,103>>, <<>>>>,
  <<<<100,97,116,101>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,116,121,112,101>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,114,97,110,103,101>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,109,100,53>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,108,111,99,97,116,105,111,110>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,101,110,99,111,100,105,110,103>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,98,97,115,101>>, <<>>>>,
  <<<<99,97,99,104,101,45,99,111,110,116,114,111,108>>, <<>>>>,
  <<<<97,117,116,104,111,114,105,122,97,116,105,111,110,115>>, <<>>>>,
  <<<<97,108,108,111,119>>, <<>>>>,
  <<<<97,99,99,101,112,116,45,114,97,110,103,101,115>>, <<>>>>,
  <<<<97,99,99,101,112,116,45,108,97,110,103,117,97,103,101>>, <<>>>>,
  <<<<97,99,99,101,112,116,45,101,110,99,111,100,105,110,103>>, <<>>>>,
  <<<<97,99,99,101,112,116,45,99,104,97,114,115,101,116>>, <<>>>>,
  <<<<97,99,99,101,112,116>>, <<>>>>,
  <<<<58,118,101,114,115,105,111,110>>, <<49,46,49>>>>,
  <<<<58,115,116,97,116,117,115,45,116,101,120,116>>, <<79,75>>>>,
  <<<<58,115,116,97,116,117,115>>, <<50,48,48>>>>,
  <<<<99,111,111,107,105,101>>, <<>>>>,
  <<<<58,104,111,115,116>>, <<>>>>,
  <<<<58,115,99,104,101,109,101>>, <<104,116,116,112,115>>>>,
  <<<<58,109,101,116,104,111,100>>, <<103,101,116>>>>,
  <<<<58,112,97,116,104>>, <<47>>>>
>>

HuffReq2 == <<
  <<2,15>>, <<3,8>>, <<4,5>>, <<-48,-102>>, <<6,7>>, <<-47,-49>>, <<-50,-51>>, <<9,12>>,
  <<10,11>>, <<-98,-100>>, <<-106,-111>>, <<13,14>>, <<-112,-113>>, <<-115,-116>>, <<16,30>>, <<17,23>>,
  <<18,20>>, <<-117,19>>, <<-38,-46>>, <<21,22>>, <<-52,-53>>, <<-54,-55>>, <<24,27>>, <<25,26>>,
  <<-56,-57>>, <<-58,-62>>, <<28,29>>, <<-96,-99>>, <<-101,-103>>, <<31,39>>, <<32,35>>, <<33,34>>,
  <<-104,-105>>, <<-109,-110>>, <<36,37>>, <<-118,-120>>, <<-257,38>>, <<-39,-66>>, <<40,51>>, <<41,44>>,
  <<42,43>>, <<-71,-107>>, <<-108,-119>>, <<45,48>>, <<46,47>>, <<-33,-45>>, <<-60,-67>>, <<49,50>>,
  <<-68,-69>>, <<-70,-78>>, <<52,61>>, <<53,56>>, <<54,55>>, <<-84,-85>>, <<-114,-121>>, <<57,58>>,
  <<-122,-123>>, <<59,60>>, <<-59,-64>>, <<-72,-73>>, <<62,69>>, <<63,66>>, <<64,65>>, <<-74,-75>>,
  <<-77,-79>>, <<67,68>>, <<-80,-81>>, <<-82,-83>>, <<70,73>>, <<71,72>>, <<-86,-87>>, <<-88,-89>>,
  <<74,76>>, <<-90,75>>, <<-43,-76>>, <<77,79>>, <<-91,78>>, <<-41,-42>>, <<80,81>>, <<-44,-125>>,
  <<82,83>>, <<-34,-127>>, <<84,86>>, <<-94,85>>, <<-35,-65>>, <<87,88>>, <<-92,-95>>, <<89,90>>,
  <<-36,-37>>, <<-40,91>>, <<92,93>>, <<-63,-124>>, <<-126,94>>, <<-61,95>>, <<-97,96>>, <<97,160>>,
  <<98,129>>, <<99,114>>, <<100,107>>, <<101,104>>, <<102,103>>, <<-163,-164>>, <<-165,-166>>, <<105,106>>,
  <<-167,-168>>, <<-169,-170>>, <<108,111>>, <<109,110>>, <<-171,-172>>, <<-173,-174>>, <<112,113>>, <<-175,-176>>,
  <<-177,-178>>, <<115,122>>, <<116,119>>, <<117,118>>, <<-179,-180>>, <<-181,-182>>, <<120,121>>, <<-183,-184>>,
  <<-185,-186>>, <<123,126>>, <<124,125>>, <<-187,-188>>, <<-189,-190>>, <<127,128>>, <<-191,-192>>, <<-193,-194>>,
  <<130,145>>, <<131,138>>, <<132,135>>, <<133,134>>, <<-195,-196>>, <<-197,-198>>, <<136,137>>, <<-199,-200>>,
  <<-201,-202>>, <<139,142>>, <<140,141>>, <<-203,-204>>, <<-205,-206>>, <<143,144>>, <<-207,-208>>, <<-209,-210>>,
  <<146,153>>, <<147,150>>, <<148,149>>, <<-211,-212>>, <<-213,-214>>, <<151,152>>, <<-215,-216>>, <<-217,-218>>,
  <<154,157>>, <<155,156>>, <<-219,-220>>, <<-221,-222>>, <<158,159>>, <<-223,-224>>, <<-225,-226>>, <<161,194>>,
  <<162,177>>, <<163,170>>, <<164,167>>, <<165,166>>, <<-227,-228>>, <<-229,-230>>, <<168,169>>, <<-231,-232>>,
  <<-233,-234>>, <<171,174>>, <<172,173>>, <<-235,-236>>, <<-237,-238>>, <<175,176>>, <<-239,-240>>, <<-241,-242>>,
  <<178,185>>, <<179,182>>, <<180,181>>, <<-243,-244>>, <<-245,-246>>, <<183,184>>, <<-247,-248>>, <<-249,-250>>,
  <<186,189>>, <<187,188>>, <<-251,-252>>, <<-253,-254>>, <<190,191>>, <<-255,-256>>, <<192,193>>, <<-1,-2>>,
  <<-3,-4>>, <<195,226>>, <<196,211>>, <<197,204>>, <<198,201>>, <<199,200>>, <<-5,-6>>, <<-7,-8>>,
  <<202,203>>, <<-9,-10>>, <<-11,-12>>, <<205,208>>, <<206,207>>, <<-13,-14>>, <<-15,-16>>, <<209,210>>,
  <<-17,-18>>, <<-19,-20>>, <<212,219>>, <<213,216>>, <<214,215>>, <<-21,-22>>, <<-23,-24>>, <<217,218>>,
  <<-25,-26>>, <<-27,-28>>, <<220,223>>, <<221,222>>, <<-29,-30>>, <<-31,-32>>, <<224,225>>, <<-93,-128>>,
  <<-129,-130>>, <<227,242>>, <<228,235>>, <<229,232>>, <<230,231>>, <<-131,-132>>, <<-133,-134>>, <<233,234>>,
  <<-135,-136>>, <<-137,-138>>, <<236,239>>, <<237,238>>, <<-139,-140>>, <<-141,-142>>, <<240,241>>, <<-143,-144>>,
  <<-145,-146>>, <<243,250>>, <<244,247>>, <<245,246>>, <<-147,-148>>, <<-149,-150>>, <<248,249>>, <<-151,-152>>,
  <<-153,-154>>, <<251,254>>, <<252,253>>, <<-155,-156>>, <<-157,-158>>, <<255,256>>, <<-159,-160>>, <<-161,-162>>
>>

HuffRes2 == <<
  <<2,13>>, <<3,6>>, <<4,5>>, <<-33,-49>>, <<-50,-51>>, <<7,10>>, <<8,9>>, <<-52,-53>>,
  <<-54,-57>>, <<11,12>>, <<-59,-85>>, <<-98,-102>>, <<14,28>>, <<15,21>>, <<16,18>>, <<-257,17>>,
  <<-45,-46>>, <<19,20>>, <<-47,-55>>, <<-56,-58>>, <<22,25>>, <<23,24>>, <<-72,-78>>, <<-84,-100>>,
  <<26,27>>, <<-101,-106>>, <<-111,-112>>, <<29,39>>, <<30,33>>, <<31,32>>, <<-113,-115>>, <<-116,-117>>,
  <<34,36>>, <<-118,35>>, <<-35,-48>>, <<37,38>>, <<-62,-66>>, <<-99,-103>>, <<40,50>>, <<41,44>>,
  <<42,43>>, <<-104,-105>>, <<-109,-110>>, <<45,47>>, <<-121,46>>, <<-67,-68>>, <<48,49>>, <<-69,-70>>,
  <<-71,-74>>, <<51,60>>, <<52,55>>, <<53,54>>, <<-75,-79>>, <<-80,-88>>, <<56,57>>, <<-119,-122>>,
  <<58,59>>, <<-41,-42>>, <<-60,-73>>, <<61,68>>, <<62,65>>, <<63,64>>, <<-77,-81>>, <<-83,-86>>,
  <<66,67>>, <<-87,-96>>, <<-107,-108>>, <<69,73>>, <<70,71>>, <<-114,-120>>, <<-123,72>>, <<-38,-39>>,
  <<74,77>>, <<75,76>>, <<-76,-82>>, <<-89,-90>>, <<78,80>>, <<-91,79>>, <<-44,-92>>, <<81,83>>,
  <<-94,82>>, <<-34,-43>>, <<84,86>>, <<-64,85>>, <<-36,-40>>, <<87,89>>, <<-93,88>>, <<-37,-63>>,
  <<90,91>>, <<-95,-125>>, <<92,93>>, <<-61,-127>>, <<94,95>>, <<-65,-124>>, <<-126,96>>, <<-97,97>>,
  <<98,161>>, <<99,130>>, <<100,115>>, <<101,108>>, <<102,105>>, <<103,104>>, <<-162,-163>>, <<-164,-165>>,
  <<106,107>>, <<-166,-167>>, <<-168,-169>>, <<109,112>>, <<110,111>>, <<-170,-171>>, <<-172,-173>>, <<113,114>>,
  <<-174,-175>>, <<-176,-177>>, <<116,123>>, <<117,120>>, <<118,119>>, <<-178,-179>>, <<-180,-181>>, <<121,122>>,
  <<-182,-183>>, <<-184,-185>>, <<124,127>>, <<125,126>>, <<-186,-187>>, <<-188,-189>>, <<128,129>>, <<-190,-191>>,
  <<-192,-193>>, <<131,146>>, <<132,139>>, <<133,136>>, <<134,135>>, <<-194,-195>>, <<-196,-197>>, <<137,138>>,
  <<-198,-199>>, <<-200,-201>>, <<140,143>>, <<141,142>>, <<-202,-203>>, <<-204,-205>>, <<144,145>>, <<-206,-207>>,
  <<-208,-209>>, <<147,154>>, <<148,151>>, <<149,150>>, <<-210,-211>>, <<-212,-213>>, <<152,153>>, <<-214,-215>>,
  <<-216,-217>>, <<155,158>>, <<156,157>>, <<-218,-219>>, <<-220,-221>>, <<159,160>>, <<-222,-223>>, <<-224,-225>>,
  <<162,194>>, <<163,178>>, <<164,171>>, <<165,168>>, <<166,167>>, <<-226,-227>>, <<-228,-229>>, <<169,170>>,
  <<-230,-231>>, <<-232,-233>>, <<172,175>>, <<173,174>>, <<-234,-235>>, <<-236,-237>>, <<176,177>>, <<-238,-239>>,
  <<-240,-241>>, <<179,186>>, <<180,183>>, <<181,182>>, <<-242,-243>>, <<-244,-245>>, <<184,185>>, <<-246,-247>>,
  <<-248,-249>>, <<187,190>>, <<188,189>>, <<-250,-251>>, <<-252,-253>>, <<191,192>>, <<-254,-255>>, <<-256,193>>,
  <<-1,-2>>, <<195,226>>, <<196,211>>, <<197,204>>, <<198,201>>, <<199,200>>, <<-3,-4>>, <<-5,-6>>,
  <<202,203>>, <<-7,-8>>, <<-9,-10>>, <<205,208>>, <<206,207>>, <<-11,-12>>, <<-13,-14>>, <<209,210>>,
  <<-15,-16>>, <<-17,-18>>, <<212,219>>, <<213,216>>, <<214,215>>, <<-19,-20>>, <<-21,-22>>, <<217,218>>,
  <<-23,-24>>, <<-25,-26>>, <<220,223>>, <<221,222>>, <<-27,-28>>, <<-29,-30>>, <<224,225>>, <<-31,-32>>,
  <<-128,-129>>, <<227,242>>, <<228,235>>, <<229,232>>, <<230,231>>, <<-130,-131>>, <<-132,-133>>, <<233,234>>,
  <<-134,-135>>, <<-136,-137>>, <<236,239>>, <<237,238>>, <<-138,-139>>, <<-140,-141>>, <<240,241>>, <<-142,-143>>,
  <<-144,-145>>, <<243,250>>, <<244,247>>, <<245,246>>, <<-146,-147>>, <<-148,-149>>, <<248,249>>, <<-150,-151>>,
  <<-152,-153>>, <<251,254>>, <<252,253>>, <<-154,-155>>, <<-156,-157>>, <<255,256>>, <<-158,-159>>, <<-160,-161>>
>>
=============================================================================

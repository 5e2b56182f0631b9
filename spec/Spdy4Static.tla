----------------------------- MODULE Spdy4Static -----------------------------
(* The fixed parts of the C++ SPDY4 format: the default entries, in the order in *)
(* which they are numbered, and the two canonical Huffman codes as trees (a node *)
(* is <<child for 0, child for 1>>, a leaf is -symbol-1, 256 ends a string).     *)
EXTENDS Integers, Sequences
DefaultKVs == <<
  <<<<58,104,111,115,116>>, <<>>>>, <<<<58,109,101,116,104,111,100>>, <<103,101,116>>>>,
  <<<<58,112,97,116,104>>, <<47>>>>, <<<<58,115,99,104,101,109,101>>, <<104,116,116,112,115>>>>,
  <<<<58,115,116,97,116,117,115>>, <<50,48,48>>>>, <<<<58,115,116,97,116,117,115,45,116,101,120,116>>, <<79,75>>>>,
  <<<<58,118,101,114,115,105,111,110>>, <<49,46,49>>>>, <<<<97,99,99,101,112,116>>, <<>>>>,
  <<<<97,99,99,101,112,116,45,99,104,97,114,115,101,116>>, <<>>>>,
  <<<<97,99,99,101,112,116,45,101,110,99,111,100,105,110,103>>, <<>>>>,
  <<<<97,99,99,101,112,116,45,108,97,110,103,117,97,103,101>>, <<>>>>,
  <<<<97,99,99,101,112,116,45,114,97,110,103,101,115>>, <<>>>>, <<<<97,108,108,111,119>>, <<>>>>,
  <<<<97,117,116,104,111,114,105,122,97,116,105,111,110,115>>, <<>>>>,
  <<<<99,97,99,104,101,45,99,111,110,116,114,111,108>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,98,97,115,101>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,101,110,99,111,100,105,110,103>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,108,111,99,97,116,105,111,110>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,109,100,53>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,114,97,110,103,101>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,116,121,112,101>>, <<>>>>, <<<<99,111,111,107,105,101>>, <<>>>>,
  <<<<100,97,116,101>>, <<>>>>, <<<<101,116,97,103>>, <<>>>>, <<<<101,120,112,101,99,116>>, <<>>>>,
  <<<<101,120,112,105,114,101,115>>, <<>>>>, <<<<102,114,111,109>>, <<>>>>,
  <<<<105,102,45,109,97,116,99,104>>, <<>>>>,
  <<<<105,102,45,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>, <<>>>>,
  <<<<105,102,45,110,111,110,101,45,109,97,116,99,104>>, <<>>>>, <<<<105,102,45,114,97,110,103,101>>, <<>>>>,
  <<<<105,102,45,117,110,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>, <<>>>>,
  <<<<108,97,115,116,45,109,111,100,105,102,105,101,100>>, <<>>>>, <<<<108,111,99,97,116,105,111,110>>, <<>>>>,
  <<<<109,97,120,45,102,111,114,119,97,114,100,115>>, <<>>>>, <<<<111,114,105,103,105,110>>, <<>>>>,
  <<<<112,114,97,103,109,97>>, <<>>>>,
  <<<<112,114,111,120,121,45,97,117,116,104,101,110,116,105,99,97,116,101>>, <<>>>>,
  <<<<112,114,111,120,121,45,97,117,116,104,111,114,105,122,97,116,105,111,110>>, <<>>>>,
  <<<<114,97,110,103,101>>, <<>>>>, <<<<114,101,102,101,114,101,114>>, <<>>>>,
  <<<<114,101,116,114,121,45,97,102,116,101,114>>, <<>>>>, <<<<115,101,114,118,101,114>>, <<>>>>,
  <<<<115,101,116,45,99,111,111,107,105,101>>, <<>>>>, <<<<115,116,97,116,117,115>>, <<>>>>, <<<<116,101>>, <<>>>>,
  <<<<116,114,97,105,108,101,114>>, <<>>>>,
  <<<<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>, <<>>>>,
  <<<<117,112,103,114,97,100,101>>, <<>>>>, <<<<117,115,101,114,45,97,103,101,110,116>>, <<>>>>,
  <<<<117,115,101,114,45,97,103,101,110,116>>, <<>>>>, <<<<118,97,114,121>>, <<>>>>, <<<<118,105,97>>, <<>>>>,
  <<<<119,97,114,110,105,110,103>>, <<>>>>, <<<<119,119,119,45,97,117,116,104,101,110,116,105,99,97,116,101>>, <<>>>>,
  <<<<97,99,99,101,115,115,45,99,111,110,116,114,111,108,45,97,108,108,111,119,45,111,114,105,103,105,110>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,100,105,115,112,111,115,105,116,105,111,110>>, <<>>>>,
  <<<<103,101,116,45,100,105,99,116,105,111,110,97,114,121>>, <<>>>>, <<<<112,51,112>>, <<>>>>,
  <<<<120,45,99,111,110,116,101,110,116,45,116,121,112,101,45,111,112,116,105,111,110,115>>, <<>>>>,
  <<<<120,45,102,114,97,109,101,45,111,112,116,105,111,110,115>>, <<>>>>,
  <<<<120,45,112,111,119,101,114,101,100,45,98,121>>, <<>>>>,
  <<<<120,45,120,115,115,45,112,114,111,116,101,99,116,105,111,110>>, <<>>>> >>

Spdy4Req == <<
  <<71,2>>, <<60,3>>, <<66,4>>, <<90,5>>, <<106,6>>, <<83,7>>, <<103,8>>, <<113,9>>, <<-91,10>>, <<54,11>>, <<64,12>>,
  <<133,13>>, <<58,14>>, <<65,15>>, <<-94,16>>, <<175,17>>, <<18,40>>, <<238,19>>, <<20,25>>, <<253,21>>, <<256,22>>,
  <<23,24>>, <<-1,-2>>, <<-3,-4>>, <<26,33>>, <<27,30>>, <<28,29>>, <<-5,-6>>, <<-7,-8>>, <<31,32>>, <<-9,-10>>,
  <<-11,-12>>, <<34,37>>, <<35,36>>, <<-13,-14>>, <<-15,-16>>, <<38,39>>, <<-17,-18>>, <<-19,-20>>, <<41,144>>,
  <<42,94>>, <<43,50>>, <<44,47>>, <<45,46>>, <<-21,-22>>, <<-23,-24>>, <<48,49>>, <<-25,-26>>, <<-27,-28>>,
  <<51,56>>, <<52,53>>, <<-29,-30>>, <<-31,-32>>, <<-34,55>>, <<-33,-41>>, <<57,86>>, <<-35,-36>>, <<-127,59>>,
  <<-37,-40>>, <<61,79>>, <<129,62>>, <<63,70>>, <<-38,-39>>, <<-42,-43>>, <<-44,-92>>, <<125,67>>, <<68,119>>,
  <<69,98>>, <<-45,-66>>, <<-46,-54>>, <<72,87>>, <<73,76>>, <<74,75>>, <<-47,-48>>, <<-49,-50>>, <<77,78>>,
  <<-51,-52>>, <<-53,-55>>, <<80,116>>, <<81,82>>, <<-56,-57>>, <<-58,-96>>, <<114,84>>, <<-123,85>>, <<-59,-60>>,
  <<-61,-63>>, <<88,122>>, <<89,118>>, <<-62,-98>>, <<130,91>>, <<92,100>>, <<93,99>>, <<-64,-67>>, <<95,137>>,
  <<96,134>>, <<97,115>>, <<-65,-93>>, <<-68,-69>>, <<-70,-71>>, <<101,102>>, <<-72,-73>>, <<-74,-77>>, <<104,105>>,
  <<-75,-76>>, <<-78,-82>>, <<107,110>>, <<108,109>>, <<-79,-80>>, <<-81,-83>>, <<111,112>>, <<-84,-85>>, <<-86,-87>>,
  <<-88,-90>>, <<-89,-114>>, <<-95,-97>>, <<117,121>>, <<-99,-101>>, <<-100,-102>>, <<120,124>>, <<-103,-107>>,
  <<-104,-105>>, <<123,127>>, <<-106,-110>>, <<-108,-118>>, <<126,128>>, <<-109,-113>>, <<-111,-112>>, <<-115,-257>>,
  <<-116,-117>>, <<131,132>>, <<-119,-120>>, <<-121,-122>>, <<-124,-126>>, <<135,136>>, <<-125,-128>>, <<-129,-130>>,
  <<138,141>>, <<139,140>>, <<-131,-132>>, <<-133,-134>>, <<142,143>>, <<-135,-136>>, <<-137,-138>>, <<145,160>>,
  <<146,153>>, <<147,150>>, <<148,149>>, <<-139,-140>>, <<-141,-142>>, <<151,152>>, <<-143,-144>>, <<-145,-146>>,
  <<154,157>>, <<155,156>>, <<-147,-148>>, <<-149,-150>>, <<158,159>>, <<-151,-152>>, <<-153,-154>>, <<161,168>>,
  <<162,165>>, <<163,164>>, <<-155,-156>>, <<-157,-158>>, <<166,167>>, <<-159,-160>>, <<-161,-162>>, <<169,172>>,
  <<170,171>>, <<-163,-164>>, <<-165,-166>>, <<173,174>>, <<-167,-168>>, <<-169,-170>>, <<176,207>>, <<177,192>>,
  <<178,185>>, <<179,182>>, <<180,181>>, <<-171,-172>>, <<-173,-174>>, <<183,184>>, <<-175,-176>>, <<-177,-178>>,
  <<186,189>>, <<187,188>>, <<-179,-180>>, <<-181,-182>>, <<190,191>>, <<-183,-184>>, <<-185,-186>>, <<193,200>>,
  <<194,197>>, <<195,196>>, <<-187,-188>>, <<-189,-190>>, <<198,199>>, <<-191,-192>>, <<-193,-194>>, <<201,204>>,
  <<202,203>>, <<-195,-196>>, <<-197,-198>>, <<205,206>>, <<-199,-200>>, <<-201,-202>>, <<208,223>>, <<209,216>>,
  <<210,213>>, <<211,212>>, <<-203,-204>>, <<-205,-206>>, <<214,215>>, <<-207,-208>>, <<-209,-210>>, <<217,220>>,
  <<218,219>>, <<-211,-212>>, <<-213,-214>>, <<221,222>>, <<-215,-216>>, <<-217,-218>>, <<224,231>>, <<225,228>>,
  <<226,227>>, <<-219,-220>>, <<-221,-222>>, <<229,230>>, <<-223,-224>>, <<-225,-226>>, <<232,235>>, <<233,234>>,
  <<-227,-228>>, <<-229,-230>>, <<236,237>>, <<-231,-232>>, <<-233,-234>>, <<239,246>>, <<240,243>>, <<241,242>>,
  <<-235,-236>>, <<-237,-238>>, <<244,245>>, <<-239,-240>>, <<-241,-242>>, <<247,250>>, <<248,249>>, <<-243,-244>>,
  <<-245,-246>>, <<251,252>>, <<-247,-248>>, <<-249,-250>>, <<254,255>>, <<-251,-252>>, <<-253,-254>>, <<-255,-256>> >>

Spdy4Res == <<
  <<56,2>>, <<84,3>>, <<73,4>>, <<59,5>>, <<111,6>>, <<131,7>>, <<67,8>>, <<88,9>>, <<65,10>>, <<-41,11>>, <<-1,12>>,
  <<93,13>>, <<63,14>>, <<135,15>>, <<66,16>>, <<-94,17>>, <<175,18>>, <<19,40>>, <<238,20>>, <<21,25>>, <<253,22>>,
  <<256,23>>, <<-256,24>>, <<-2,-3>>, <<26,33>>, <<27,30>>, <<28,29>>, <<-4,-5>>, <<-6,-7>>, <<31,32>>, <<-8,-9>>,
  <<-10,-11>>, <<34,37>>, <<35,36>>, <<-12,-13>>, <<-14,-15>>, <<38,39>>, <<-16,-17>>, <<-18,-19>>, <<41,144>>,
  <<42,89>>, <<43,50>>, <<44,47>>, <<45,46>>, <<-20,-21>>, <<-22,-23>>, <<48,49>>, <<-24,-25>>, <<-26,-27>>,
  <<51,54>>, <<52,53>>, <<-28,-29>>, <<-30,-31>>, <<55,64>>, <<-32,-34>>, <<57,69>>, <<58,79>>, <<-33,-49>>,
  <<60,100>>, <<130,61>>, <<-121,62>>, <<-35,-73>>, <<-36,-43>>, <<-37,-61>>, <<-38,-39>>, <<-40,-92>>, <<-123,68>>,
  <<-42,-44>>, <<80,70>>, <<124,71>>, <<72,83>>, <<-45,-55>>, <<74,96>>, <<75,77>>, <<-118,76>>, <<-46,-47>>,
  <<78,95>>, <<-48,-62>>, <<-50,-51>>, <<81,82>>, <<-52,-53>>, <<-54,-98>>, <<-56,-57>>, <<85,121>>, <<86,104>>,
  <<87,94>>, <<-58,-59>>, <<-60,-96>>, <<90,137>>, <<91,118>>, <<92,117>>, <<-63,-65>>, <<-64,-125>>, <<-66,-72>>,
  <<-67,-68>>, <<97,109>>, <<98,99>>, <<-69,-70>>, <<-71,-75>>, <<101,106>>, <<102,103>>, <<-74,-76>>, <<-77,-79>>,
  <<105,120>>, <<-78,-85>>, <<107,108>>, <<-80,-81>>, <<-82,-83>>, <<110,127>>, <<-84,-105>>, <<112,115>>,
  <<113,114>>, <<-86,-87>>, <<-88,-89>>, <<116,126>>, <<-90,-91>>, <<-93,-95>>, <<119,136>>, <<-97,-127>>,
  <<-99,-100>>, <<122,128>>, <<123,125>>, <<-101,-103>>, <<-102,-257>>, <<-104,-106>>, <<-107,-108>>, <<-109,-110>>,
  <<129,133>>, <<-111,-112>>, <<-113,-116>>, <<132,134>>, <<-114,-119>>, <<-115,-117>>, <<-120,-122>>, <<-124,-126>>,
  <<-128,-129>>, <<138,141>>, <<139,140>>, <<-130,-131>>, <<-132,-133>>, <<142,143>>, <<-134,-135>>, <<-136,-137>>,
  <<145,160>>, <<146,153>>, <<147,150>>, <<148,149>>, <<-138,-139>>, <<-140,-141>>, <<151,152>>, <<-142,-143>>,
  <<-144,-145>>, <<154,157>>, <<155,156>>, <<-146,-147>>, <<-148,-149>>, <<158,159>>, <<-150,-151>>, <<-152,-153>>,
  <<161,168>>, <<162,165>>, <<163,164>>, <<-154,-155>>, <<-156,-157>>, <<166,167>>, <<-158,-159>>, <<-160,-161>>,
  <<169,172>>, <<170,171>>, <<-162,-163>>, <<-164,-165>>, <<173,174>>, <<-166,-167>>, <<-168,-169>>, <<176,207>>,
  <<177,192>>, <<178,185>>, <<179,182>>, <<180,181>>, <<-170,-171>>, <<-172,-173>>, <<183,184>>, <<-174,-175>>,
  <<-176,-177>>, <<186,189>>, <<187,188>>, <<-178,-179>>, <<-180,-181>>, <<190,191>>, <<-182,-183>>, <<-184,-185>>,
  <<193,200>>, <<194,197>>, <<195,196>>, <<-186,-187>>, <<-188,-189>>, <<198,199>>, <<-190,-191>>, <<-192,-193>>,
  <<201,204>>, <<202,203>>, <<-194,-195>>, <<-196,-197>>, <<205,206>>, <<-198,-199>>, <<-200,-201>>, <<208,223>>,
  <<209,216>>, <<210,213>>, <<211,212>>, <<-202,-203>>, <<-204,-205>>, <<214,215>>, <<-206,-207>>, <<-208,-209>>,
  <<217,220>>, <<218,219>>, <<-210,-211>>, <<-212,-213>>, <<221,222>>, <<-214,-215>>, <<-216,-217>>, <<224,231>>,
  <<225,228>>, <<226,227>>, <<-218,-219>>, <<-220,-221>>, <<229,230>>, <<-222,-223>>, <<-224,-225>>, <<232,235>>,
  <<233,234>>, <<-226,-227>>, <<-228,-229>>, <<236,237>>, <<-230,-231>>, <<-232,-233>>, <<239,246>>, <<240,243>>,
  <<241,242>>, <<-234,-235>>, <<-236,-237>>, <<244,245>>, <<-238,-239>>, <<-240,-241>>, <<247,250>>, <<248,249>>,
  <<-242,-243>>, <<-244,-245>>, <<251,252>>, <<-246,-247>>, <<-248,-249>>, <<254,255>>, <<-250,-251>>, <<-252,-253>>,
  <<-254,-255>> >>

==============================================================================

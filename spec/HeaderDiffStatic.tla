------------------------- MODULE HeaderDiffStatic -------------------------
(* Data of the HeaderDiff format: the names registered in advance for each   *)
(* direction, and the two Huffman trees: <<child0, child1>> per node, a      *)
(* negative child -s-1 being the leaf of symbol s (256 ends a string).       *)
EXTENDS Naturals, Integers, Sequences

NamesRequest == <<
  <<97,99,99,101,112,116>>,
  <<97,99,99,101,112,116,45,99,104,97,114,115,101,116>>,
  <<97,99,99,101,112,116,45,101,110,99,111,100,105,110,103>>,
  <<97,99,99,101,112,116,45,108,97,110,103,117,97,103,101>>,
  <<99,111,111,107,105,101>>,
  <<58,109,101,116,104,111,100>>,
  <<104,111,115,116>>,
  <<105,102,45,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>,
  <<107,101,101,112,45,97,108,105,118,101>>,
  <<58,104,111,115,116>>,
  <<58,115,99,104,101,109,101>>,
  <<58,112,97,116,104>>,
  <<117,115,101,114,45,97,103,101,110,116>>,
  <<58,118,101,114,115,105,111,110>>,
  <<112,114,111,120,121,45,99,111,110,110,101,99,116,105,111,110>>,
  <<114,101,102,101,114,101,114>>,
  <<97,99,99,101,112,116,45,100,97,116,101,116,105,109,101>>,
  <<97,117,116,104,111,114,105,122,97,116,105,111,110>>,
  <<97,108,108,111,119>>,
  <<99,97,99,104,101,45,99,111,110,116,114,111,108>>,
  <<99,111,110,110,101,99,116,105,111,110>>,
  <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>,
  <<99,111,110,116,101,110,116,45,109,100,53>>,
  <<99,111,110,116,101,110,116,45,116,121,112,101>>,
  <<100,97,116,101>>,
  <<101,120,112,101,99,116>>,
  <<102,114,111,109>>,
  <<105,102,45,109,97,116,99,104>>,
  <<105,102,45,110,111,110,101,45,109,97,116,99,104>>,
  <<105,102,45,114,97,110,103,101>>,
  <<105,102,45,117,110,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>,
  <<109,97,120,45,102,111,114,119,97,114,100,115>>,
  <<112,114,97,103,109,97>>,
  <<112,114,111,120,121,45,97,117,116,104,111,114,105,122,97,116,105,111,110>>,
  <<114,97,110,103,101>>,
  <<116,101>>,
  <<117,112,103,114,97,100,101>>,
  <<118,105,97>>,
  <<119,97,114,110,105,110,103>> >>

NamesResponse == <<
  <<97,103,101>>,
  <<99,97,99,104,101,45,99,111,110,116,114,111,108>>,
  <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>,
  <<99,111,110,116,101,110,116,45,116,121,112,101>>,
  <<100,97,116,101>>,
  <<101,116,97,103>>,
  <<101,120,112,105,114,101,115>>,
  <<108,97,115,116,45,109,111,100,105,102,105,101,100>>,
  <<115,101,114,118,101,114>>,
  <<115,101,116,45,99,111,111,107,105,101>>,
  <<58,115,116,97,116,117,115>>,
  <<118,97,114,121>>,
  <<58,118,101,114,115,105,111,110>>,
  <<118,105,97>>,
  <<58,115,116,97,116,117,115,45,116,101,120,116>>,
  <<97,99,99,101,115,115,45,99,111,110,116,114,111,108,45,97,108,108,111,119,45,111,114,105,103,105,110>>,
  <<97,99,99,101,112,116,45,114,97,110,103,101,115>>,
  <<97,108,108,111,119>>,
  <<99,111,110,110,101,99,116,105,111,110>>,
  <<99,111,110,116,101,110,116,45,100,105,115,112,111,115,105,116,105,111,110>>,
  <<99,111,110,116,101,110,116,45,101,110,99,111,100,105,110,103>>,
  <<99,111,110,116,101,110,116,45,108,97,110,103,117,97,103,101>>,
  <<99,111,110,116,101,110,116,45,108,111,99,97,116,105,111,110>>,
  <<99,111,110,116,101,110,116,45,109,100,53>>,
  <<99,111,110,116,101,110,116,45,114,97,110,103,101>>,
  <<108,105,110,107>>,
  <<108,111,99,97,116,105,111,110>>,
  <<112,51,112>>,
  <<112,114,97,103,109,97>>,
  <<112,114,111,120,121,45,97,117,116,104,101,110,116,105,99,97,116,101>>,
  <<114,101,102,114,101,115,104>>,
  <<114,101,116,114,121,45,97,102,116,101,114>>,
  <<115,116,114,105,99,116,45,116,114,97,110,115,112,111,114,116,45,115,101,99,117,114,105,116,121>>,
  <<116,114,97,105,108,101,114>>,
  <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>,
  <<119,97,114,110,105,110,103>>,
  <<119,119,119,45,97,117,116,104,101,110,116,105,99,97,116,101>> >>

HuffRequest == <<
  <<2,206>>,<<3,189>>,<<4,183>>,<<5,-102>>,<<6,9>>,<<7,-120>>,<<-122,8>>,<<-80,-77>>,<<-105,10>>,<<11,-121>>,
  <<12,-83>>,<<13,-59>>,<<-44,14>>,<<15,144>>,<<16,-94>>,<<17,-95>>,<<18,81>>,<<19,50>>,<<20,35>>,<<21,28>>,
  <<22,25>>,<<23,24>>,<<-5,-6>>,<<-7,-8>>,<<26,27>>,<<-9,-10>>,<<-11,-12>>,<<29,32>>,<<30,31>>,<<-13,-14>>,
  <<-15,-16>>,<<33,34>>,<<-17,-18>>,<<-19,-20>>,<<36,43>>,<<37,40>>,<<38,39>>,<<-21,-22>>,<<-23,-24>>,
  <<41,42>>,<<-25,-26>>,<<-27,-28>>,<<44,47>>,<<45,46>>,<<-29,-30>>,<<-31,-32>>,<<48,49>>,<<-93,-128>>,
  <<-129,-130>>,<<51,66>>,<<52,59>>,<<53,56>>,<<54,55>>,<<-131,-132>>,<<-133,-134>>,<<57,58>>,<<-135,-136>>,
  <<-137,-138>>,<<60,63>>,<<61,62>>,<<-139,-140>>,<<-141,-142>>,<<64,65>>,<<-143,-144>>,<<-145,-146>>,
  <<67,74>>,<<68,71>>,<<69,70>>,<<-147,-148>>,<<-149,-150>>,<<72,73>>,<<-151,-152>>,<<-153,-154>>,<<75,78>>,
  <<76,77>>,<<-155,-156>>,<<-157,-158>>,<<79,80>>,<<-159,-160>>,<<-161,-162>>,<<82,113>>,<<83,98>>,<<84,91>>,
  <<85,88>>,<<86,87>>,<<-163,-164>>,<<-165,-166>>,<<89,90>>,<<-167,-168>>,<<-169,-170>>,<<92,95>>,<<93,94>>,
  <<-171,-172>>,<<-173,-174>>,<<96,97>>,<<-175,-176>>,<<-177,-178>>,<<99,106>>,<<100,103>>,<<101,102>>,
  <<-179,-180>>,<<-181,-182>>,<<104,105>>,<<-183,-184>>,<<-185,-186>>,<<107,110>>,<<108,109>>,<<-187,-188>>,
  <<-189,-190>>,<<111,112>>,<<-191,-192>>,<<-193,-194>>,<<114,129>>,<<115,122>>,<<116,119>>,<<117,118>>,
  <<-195,-196>>,<<-197,-198>>,<<120,121>>,<<-199,-200>>,<<-201,-202>>,<<123,126>>,<<124,125>>,<<-203,-204>>,
  <<-205,-206>>,<<127,128>>,<<-207,-208>>,<<-209,-210>>,<<130,137>>,<<131,134>>,<<132,133>>,<<-211,-212>>,
  <<-213,-214>>,<<135,136>>,<<-215,-216>>,<<-217,-218>>,<<138,141>>,<<139,140>>,<<-219,-220>>,<<-221,-222>>,
  <<142,143>>,<<-223,-224>>,<<-225,-226>>,<<145,146>>,<<-35,-65>>,<<-36,147>>,<<148,-40>>,<<149,165>>,
  <<150,-97>>,<<151,158>>,<<152,155>>,<<153,154>>,<<-227,-228>>,<<-229,-230>>,<<156,157>>,<<-231,-232>>,
  <<-233,-234>>,<<159,162>>,<<160,161>>,<<-235,-236>>,<<-237,-238>>,<<163,164>>,<<-239,-240>>,<<-241,-242>>,
  <<-61,166>>,<<167,174>>,<<168,171>>,<<169,170>>,<<-243,-244>>,<<-245,-246>>,<<172,173>>,<<-247,-248>>,
  <<-249,-250>>,<<175,178>>,<<176,177>>,<<-251,-252>>,<<-253,-254>>,<<179,180>>,<<-255,-256>>,<<181,182>>,
  <<-1,-2>>,<<-3,-4>>,<<184,188>>,<<-115,185>>,<<186,-99>>,<<-68,187>>,<<-60,-114>>,<<-111,-38>>,<<190,200>>,
  <<191,198>>,<<192,-112>>,<<193,196>>,<<194,-108>>,<<195,-74>>,<<-76,-91>>,<<197,-119>>,<<-89,-84>>,
  <<-100,199>>,<<-257,-103>>,<<201,202>>,<<-47,-52>>,<<203,-116>>,<<204,-39>>,<<-69,205>>,<<-78,-123>>,
  <<207,226>>,<<208,218>>,<<209,210>>,<<-98,-106>>,<<211,212>>,<<-118,-96>>,<<213,-57>>,<<214,-107>>,
  <<-70,215>>,<<216,-75>>,<<-125,217>>,<<-43,-34>>,<<219,221>>,<<-117,220>>,<<-55,-48>>,<<222,-49>>,
  <<-110,223>>,<<224,-66>>,<<-85,225>>,<<-72,-64>>,<<227,248>>,<<228,231>>,<<229,230>>,<<-104,-46>>,
  <<-58,-53>>,<<-50,232>>,<<-56,233>>,<<234,245>>,<<235,244>>,<<-45,236>>,<<237,243>>,<<-41,238>>,
  <<-127,239>>,<<240,-92>>,<<-37,241>>,<<242,-63>>,<<-124,-126>>,<<-33,-42>>,<<-82,-90>>,<<246,247>>,
  <<-81,-79>>,<<-86,-87>>,<<249,255>>,<<250,251>>,<<-109,-54>>,<<-101,252>>,<<253,-71>>,<<-67,254>>,
  <<-88,-73>>,<<-51,256>>,<<-113,-62>> >>

HuffResponse == <<
  <<2,170>>,<<3,16>>,<<4,12>>,<<5,11>>,<<6,7>>,<<-103,-106>>,<<8,-47>>,<<9,-35>>,<<10,-87>>,<<-41,-39>>,
  <<-55,-56>>,<<13,-50>>,<<14,-58>>,<<15,-46>>,<<-69,-84>>,<<17,24>>,<<18,19>>,<<-78,-85>>,<<20,-57>>,
  <<-117,21>>,<<22,23>>,<<-60,-107>>,<<-96,-108>>,<<-49,25>>,<<26,-59>>,<<27,-101>>,<<-104,28>>,<<-83,29>>,
  <<30,-76>>,<<31,46>>,<<32,-43>>,<<-40,33>>,<<34,-93>>,<<-95,35>>,<<36,45>>,<<37,-97>>,<<38,41>>,<<39,40>>,
  <<-250,-251>>,<<-252,-253>>,<<42,43>>,<<-254,-255>>,<<-256,44>>,<<-1,-2>>,<<-65,-126>>,<<-94,47>>,
  <<-64,48>>,<<49,50>>,<<-125,-37>>,<<51,107>>,<<52,76>>,<<53,61>>,<<-124,54>>,<<55,58>>,<<56,57>>,<<-3,-4>>,
  <<-5,-6>>,<<59,60>>,<<-7,-8>>,<<-9,-10>>,<<62,69>>,<<63,66>>,<<64,65>>,<<-11,-12>>,<<-13,-14>>,<<67,68>>,
  <<-15,-16>>,<<-17,-18>>,<<70,73>>,<<71,72>>,<<-19,-20>>,<<-21,-22>>,<<74,75>>,<<-23,-24>>,<<-25,-26>>,
  <<77,92>>,<<78,85>>,<<79,82>>,<<80,81>>,<<-27,-28>>,<<-29,-30>>,<<83,84>>,<<-31,-32>>,<<-128,-129>>,
  <<86,89>>,<<87,88>>,<<-130,-131>>,<<-132,-133>>,<<90,91>>,<<-134,-135>>,<<-136,-137>>,<<93,100>>,<<94,97>>,
  <<95,96>>,<<-138,-139>>,<<-140,-141>>,<<98,99>>,<<-142,-143>>,<<-144,-145>>,<<101,104>>,<<102,103>>,
  <<-146,-147>>,<<-148,-149>>,<<105,106>>,<<-150,-151>>,<<-152,-153>>,<<108,139>>,<<109,124>>,<<110,117>>,
  <<111,114>>,<<112,113>>,<<-154,-155>>,<<-156,-157>>,<<115,116>>,<<-158,-159>>,<<-160,-161>>,<<118,121>>,
  <<119,120>>,<<-162,-163>>,<<-164,-165>>,<<122,123>>,<<-166,-167>>,<<-168,-169>>,<<125,132>>,<<126,129>>,
  <<127,128>>,<<-170,-171>>,<<-172,-173>>,<<130,131>>,<<-174,-175>>,<<-176,-177>>,<<133,136>>,<<134,135>>,
  <<-178,-179>>,<<-180,-181>>,<<137,138>>,<<-182,-183>>,<<-184,-185>>,<<140,155>>,<<141,148>>,<<142,145>>,
  <<143,144>>,<<-186,-187>>,<<-188,-189>>,<<146,147>>,<<-190,-191>>,<<-192,-193>>,<<149,152>>,<<150,151>>,
  <<-194,-195>>,<<-196,-197>>,<<153,154>>,<<-198,-199>>,<<-200,-201>>,<<156,163>>,<<157,160>>,<<158,159>>,
  <<-202,-203>>,<<-204,-205>>,<<161,162>>,<<-206,-207>>,<<-208,-209>>,<<164,167>>,<<165,166>>,<<-210,-211>>,
  <<-212,-213>>,<<168,169>>,<<-214,-215>>,<<-216,-217>>,<<171,189>>,<<172,173>>,<<-257,-33>>,<<174,178>>,
  <<175,-54>>,<<176,-112>>,<<-105,177>>,<<-86,-75>>,<<179,185>>,<<180,183>>,<<-118,181>>,<<-67,182>>,
  <<-42,-91>>,<<184,-109>>,<<-120,-74>>,<<186,188>>,<<-66,187>>,<<-81,-45>>,<<-110,-62>>,<<190,246>>,
  <<191,192>>,<<-53,-52>>,<<193,241>>,<<194,237>>,<<195,197>>,<<196,-122>>,<<-89,-90>>,<<198,-70>>,
  <<-82,199>>,<<-44,200>>,<<-34,201>>,<<202,-92>>,<<-36,203>>,<<204,-63>>,<<205,236>>,<<206,221>>,<<207,214>>,
  <<208,211>>,<<209,210>>,<<-218,-219>>,<<-220,-221>>,<<212,213>>,<<-222,-223>>,<<-224,-225>>,<<215,218>>,
  <<216,217>>,<<-226,-227>>,<<-228,-229>>,<<219,220>>,<<-230,-231>>,<<-232,-233>>,<<222,229>>,<<223,226>>,
  <<224,225>>,<<-234,-235>>,<<-236,-237>>,<<227,228>>,<<-238,-239>>,<<-240,-241>>,<<230,233>>,<<231,232>>,
  <<-242,-243>>,<<-244,-245>>,<<234,235>>,<<-246,-247>>,<<-248,-249>>,<<-61,-127>>,<<238,239>>,<<-119,-80>>,
  <<-79,240>>,<<-88,-73>>,<<242,243>>,<<-99,-116>>,<<244,-113>>,<<245,-68>>,<<-38,-123>>,<<247,254>>,
  <<248,253>>,<<-100,249>>,<<250,252>>,<<-121,251>>,<<-114,-77>>,<<-48,-71>>,<<-98,-102>>,<<255,-51>>,
  <<256,-72>>,<<-111,-115>> >>
=============================================================================

---- MODULE UcdTable ----
\* Generated by harness/gen_ucd.py from Unicode 15.0.0; 458 code points.
EXTENDS Integers, Sequences, TLC
CanonD_K == <<192,193,194,196,197,199,200,201,202,203,204,205,206,207,210,211,212,214,217,218,219,220,221,224,225,226,228,229,231,232,233,234,235,236,237,238,239,242,243,244,246,249,250,251,252,253,255,262,263,264,265,266,267,268,269,270,271,278,279,282,283,284,285,288,289,290,291,292,293,304,308,309,310,311,313,314,315,316,317,318,323,324,325,326,327,328,340,341,342,343,344,345,346,347,348,349,350,351,352,353,354,355,356,357,366,367,372,373,374,375,376,377,378,379,380,381,382,461,462,463,464,465,466,467,468,471,472,473,474,475,476,486,487,488,489,496,500,501,504,505,506,507,509,542,543,550,551,552,553,558,559,836,902,911,2392,7682,7683,7684,7685,7688,7689,7690,7691,7692,7693,7696,7697,7710,7711,7714,7715,7716,7717,7718,7719,7720,7721,7726,7727,7728,7729,7730,7731,7734,7735,7742,7743,7744,7745,7746,7747,7748,7749,7750,7751,7764,7765,7766,7767,7768,7769,7770,7771,7776,7777,7778,7779,7780,7781,7782,7783,7784,7785,7786,7787,7788,7789,7806,7807,7808,7809,7810,7811,7812,7813,7814,7815,7816,7817,7818,7819,7820,7821,7822,7823,7824,7825,7826,7827,7831,7832,7833,7835,7840,7841,7844,7845,7846,7847,7852,7853,7864,7865,7870,7871,7872,7873,7878,7879,7882,7883,7884,7885,7888,7889,7890,7891,7896,7897,7908,7909,7922,7923,7924,7925,8122,8124,8186,8188,8486,8491,8800,8814,8815,10972,44032,44033,63744,69786,119134>>
CanonD_V == <<<<65,768>>,<<65,769>>,<<65,770>>,<<65,776>>,<<65,778>>,<<67,807>>,<<69,768>>,<<69,769>>,<<69,770>>,<<69,776>>,<<73,768>>,<<73,769>>,<<73,770>>,<<73,776>>,<<79,768>>,<<79,769>>,<<79,770>>,<<79,776>>,<<85,768>>,<<85,769>>,<<85,770>>,<<85,776>>,<<89,769>>,<<97,768>>,<<97,769>>,<<97,770>>,<<97,776>>,<<97,778>>,<<99,807>>,<<101,768>>,<<101,769>>,<<101,770>>,<<101,776>>,<<105,768>>,<<105,769>>,<<105,770>>,<<105,776>>,<<111,768>>,<<111,769>>,<<111,770>>,<<111,776>>,<<117,768>>,<<117,769>>,<<117,770>>,<<117,776>>,<<121,769>>,<<121,776>>,<<67,769>>,<<99,769>>,<<67,770>>,<<99,770>>,<<67,775>>,<<99,775>>,<<67,780>>,<<99,780>>,<<68,780>>,<<100,780>>,<<69,775>>,<<101,775>>,<<69,780>>,<<101,780>>,<<71,770>>,<<103,770>>,<<71,775>>,<<103,775>>,<<71,807>>,<<103,807>>,<<72,770>>,<<104,770>>,<<73,775>>,<<74,770>>,<<106,770>>,<<75,807>>,<<107,807>>,<<76,769>>,<<108,769>>,<<76,807>>,<<108,807>>,<<76,780>>,<<108,780>>,<<78,769>>,<<110,769>>,<<78,807>>,<<110,807>>,<<78,780>>,<<110,780>>,<<82,769>>,<<114,769>>,<<82,807>>,<<114,807>>,<<82,780>>,<<114,780>>,<<83,769>>,<<115,769>>,<<83,770>>,<<115,770>>,<<83,807>>,<<115,807>>,<<83,780>>,<<115,780>>,<<84,807>>,<<116,807>>,<<84,780>>,<<116,780>>,<<85,778>>,<<117,778>>,<<87,770>>,<<119,770>>,<<89,770>>,<<121,770>>,<<89,776>>,<<90,769>>,<<122,769>>,<<90,775>>,<<122,775>>,<<90,780>>,<<122,780>>,<<65,780>>,<<97,780>>,<<73,780>>,<<105,780>>,<<79,780>>,<<111,780>>,<<85,780>>,<<117,780>>,<<85,776,769>>,<<117,776,769>>,<<85,776,780>>,<<117,776,780>>,<<85,776,768>>,<<117,776,768>>,<<71,780>>,<<103,780>>,<<75,780>>,<<107,780>>,<<106,780>>,<<71,769>>,<<103,769>>,<<78,768>>,<<110,768>>,<<65,778,769>>,<<97,778,769>>,<<230,769>>,<<72,780>>,<<104,780>>,<<65,775>>,<<97,775>>,<<69,807>>,<<101,807>>,<<79,775>>,<<111,775>>,<<776,769>>,<<913,769>>,<<937,769>>,<<2325,2364>>,<<66,775>>,<<98,775>>,<<66,803>>,<<98,803>>,<<67,807,769>>,<<99,807,769>>,<<68,775>>,<<100,775>>,<<68,803>>,<<100,803>>,<<68,807>>,<<100,807>>,<<70,775>>,<<102,775>>,<<72,775>>,<<104,775>>,<<72,803>>,<<104,803>>,<<72,776>>,<<104,776>>,<<72,807>>,<<104,807>>,<<73,776,769>>,<<105,776,769>>,<<75,769>>,<<107,769>>,<<75,803>>,<<107,803>>,<<76,803>>,<<108,803>>,<<77,769>>,<<109,769>>,<<77,775>>,<<109,775>>,<<77,803>>,<<109,803>>,<<78,775>>,<<110,775>>,<<78,803>>,<<110,803>>,<<80,769>>,<<112,769>>,<<80,775>>,<<112,775>>,<<82,775>>,<<114,775>>,<<82,803>>,<<114,803>>,<<83,775>>,<<115,775>>,<<83,803>>,<<115,803>>,<<83,769,775>>,<<115,769,775>>,<<83,780,775>>,<<115,780,775>>,<<83,803,775>>,<<115,803,775>>,<<84,775>>,<<116,775>>,<<84,803>>,<<116,803>>,<<86,803>>,<<118,803>>,<<87,768>>,<<119,768>>,<<87,769>>,<<119,769>>,<<87,776>>,<<119,776>>,<<87,775>>,<<119,775>>,<<87,803>>,<<119,803>>,<<88,775>>,<<120,775>>,<<88,776>>,<<120,776>>,<<89,775>>,<<121,775>>,<<90,770>>,<<122,770>>,<<90,803>>,<<122,803>>,<<116,776>>,<<119,778>>,<<121,778>>,<<383,775>>,<<65,803>>,<<97,803>>,<<65,770,769>>,<<97,770,769>>,<<65,770,768>>,<<97,770,768>>,<<65,803,770>>,<<97,803,770>>,<<69,803>>,<<101,803>>,<<69,770,769>>,<<101,770,769>>,<<69,770,768>>,<<101,770,768>>,<<69,803,770>>,<<101,803,770>>,<<73,803>>,<<105,803>>,<<79,803>>,<<111,803>>,<<79,770,769>>,<<111,770,769>>,<<79,770,768>>,<<111,770,768>>,<<79,803,770>>,<<111,803,770>>,<<85,803>>,<<117,803>>,<<89,768>>,<<121,768>>,<<89,803>>,<<121,803>>,<<913,768>>,<<913,837>>,<<937,768>>,<<937,837>>,<<937>>,<<65,778>>,<<61,824>>,<<60,824>>,<<62,824>>,<<10973,824>>,<<4352,4449>>,<<4352,4449,4520>>,<<35912>>,<<69785,69818>>,<<119127,119141>>>>
CompatD_K == <<160,178,189,192,193,194,196,197,199,200,201,202,203,204,205,206,207,210,211,212,214,217,218,219,220,221,224,225,226,228,229,231,232,233,234,235,236,237,238,239,242,243,244,246,249,250,251,252,253,255,262,263,264,265,266,267,268,269,270,271,278,279,282,283,284,285,288,289,290,291,292,293,304,308,309,310,311,313,314,315,316,317,318,323,324,325,326,327,328,340,341,342,343,344,345,346,347,348,349,350,351,352,353,354,355,356,357,366,367,372,373,374,375,376,377,378,379,380,381,382,383,461,462,463,464,465,466,467,468,471,472,473,474,475,476,486,487,488,489,496,500,501,504,505,506,507,509,542,543,550,551,552,553,558,559,836,902,911,2392,7682,7683,7684,7685,7688,7689,7690,7691,7692,7693,7696,7697,7710,7711,7714,7715,7716,7717,7718,7719,7720,7721,7726,7727,7728,7729,7730,7731,7734,7735,7742,7743,7744,7745,7746,7747,7748,7749,7750,7751,7764,7765,7766,7767,7768,7769,7770,7771,7776,7777,7778,7779,7780,7781,7782,7783,7784,7785,7786,7787,7788,7789,7806,7807,7808,7809,7810,7811,7812,7813,7814,7815,7816,7817,7818,7819,7820,7821,7822,7823,7824,7825,7826,7827,7831,7832,7833,7835,7840,7841,7844,7845,7846,7847,7852,7853,7864,7865,7870,7871,7872,7873,7878,7879,7882,7883,7884,7885,7888,7889,7890,7891,7896,7897,7908,7909,7922,7923,7924,7925,8122,8124,8186,8188,8194,8486,8491,8800,8814,8815,10972,12288,13218,44032,44033,63744,64257,64259,65313,69786,119134>>
CompatD_V == <<<<32>>,<<50>>,<<49,8260,50>>,<<65,768>>,<<65,769>>,<<65,770>>,<<65,776>>,<<65,778>>,<<67,807>>,<<69,768>>,<<69,769>>,<<69,770>>,<<69,776>>,<<73,768>>,<<73,769>>,<<73,770>>,<<73,776>>,<<79,768>>,<<79,769>>,<<79,770>>,<<79,776>>,<<85,768>>,<<85,769>>,<<85,770>>,<<85,776>>,<<89,769>>,<<97,768>>,<<97,769>>,<<97,770>>,<<97,776>>,<<97,778>>,<<99,807>>,<<101,768>>,<<101,769>>,<<101,770>>,<<101,776>>,<<105,768>>,<<105,769>>,<<105,770>>,<<105,776>>,<<111,768>>,<<111,769>>,<<111,770>>,<<111,776>>,<<117,768>>,<<117,769>>,<<117,770>>,<<117,776>>,<<121,769>>,<<121,776>>,<<67,769>>,<<99,769>>,<<67,770>>,<<99,770>>,<<67,775>>,<<99,775>>,<<67,780>>,<<99,780>>,<<68,780>>,<<100,780>>,<<69,775>>,<<101,775>>,<<69,780>>,<<101,780>>,<<71,770>>,<<103,770>>,<<71,775>>,<<103,775>>,<<71,807>>,<<103,807>>,<<72,770>>,<<104,770>>,<<73,775>>,<<74,770>>,<<106,770>>,<<75,807>>,<<107,807>>,<<76,769>>,<<108,769>>,<<76,807>>,<<108,807>>,<<76,780>>,<<108,780>>,<<78,769>>,<<110,769>>,<<78,807>>,<<110,807>>,<<78,780>>,<<110,780>>,<<82,769>>,<<114,769>>,<<82,807>>,<<114,807>>,<<82,780>>,<<114,780>>,<<83,769>>,<<115,769>>,<<83,770>>,<<115,770>>,<<83,807>>,<<115,807>>,<<83,780>>,<<115,780>>,<<84,807>>,<<116,807>>,<<84,780>>,<<116,780>>,<<85,778>>,<<117,778>>,<<87,770>>,<<119,770>>,<<89,770>>,<<121,770>>,<<89,776>>,<<90,769>>,<<122,769>>,<<90,775>>,<<122,775>>,<<90,780>>,<<122,780>>,<<115>>,<<65,780>>,<<97,780>>,<<73,780>>,<<105,780>>,<<79,780>>,<<111,780>>,<<85,780>>,<<117,780>>,<<85,776,769>>,<<117,776,769>>,<<85,776,780>>,<<117,776,780>>,<<85,776,768>>,<<117,776,768>>,<<71,780>>,<<103,780>>,<<75,780>>,<<107,780>>,<<106,780>>,<<71,769>>,<<103,769>>,<<78,768>>,<<110,768>>,<<65,778,769>>,<<97,778,769>>,<<230,769>>,<<72,780>>,<<104,780>>,<<65,775>>,<<97,775>>,<<69,807>>,<<101,807>>,<<79,775>>,<<111,775>>,<<776,769>>,<<913,769>>,<<937,769>>,<<2325,2364>>,<<66,775>>,<<98,775>>,<<66,803>>,<<98,803>>,<<67,807,769>>,<<99,807,769>>,<<68,775>>,<<100,775>>,<<68,803>>,<<100,803>>,<<68,807>>,<<100,807>>,<<70,775>>,<<102,775>>,<<72,775>>,<<104,775>>,<<72,803>>,<<104,803>>,<<72,776>>,<<104,776>>,<<72,807>>,<<104,807>>,<<73,776,769>>,<<105,776,769>>,<<75,769>>,<<107,769>>,<<75,803>>,<<107,803>>,<<76,803>>,<<108,803>>,<<77,769>>,<<109,769>>,<<77,775>>,<<109,775>>,<<77,803>>,<<109,803>>,<<78,775>>,<<110,775>>,<<78,803>>,<<110,803>>,<<80,769>>,<<112,769>>,<<80,775>>,<<112,775>>,<<82,775>>,<<114,775>>,<<82,803>>,<<114,803>>,<<83,775>>,<<115,775>>,<<83,803>>,<<115,803>>,<<83,769,775>>,<<115,769,775>>,<<83,780,775>>,<<115,780,775>>,<<83,803,775>>,<<115,803,775>>,<<84,775>>,<<116,775>>,<<84,803>>,<<116,803>>,<<86,803>>,<<118,803>>,<<87,768>>,<<119,768>>,<<87,769>>,<<119,769>>,<<87,776>>,<<119,776>>,<<87,775>>,<<119,775>>,<<87,803>>,<<119,803>>,<<88,775>>,<<120,775>>,<<88,776>>,<<120,776>>,<<89,775>>,<<121,775>>,<<90,770>>,<<122,770>>,<<90,803>>,<<122,803>>,<<116,776>>,<<119,778>>,<<121,778>>,<<115,775>>,<<65,803>>,<<97,803>>,<<65,770,769>>,<<97,770,769>>,<<65,770,768>>,<<97,770,768>>,<<65,803,770>>,<<97,803,770>>,<<69,803>>,<<101,803>>,<<69,770,769>>,<<101,770,769>>,<<69,770,768>>,<<101,770,768>>,<<69,803,770>>,<<101,803,770>>,<<73,803>>,<<105,803>>,<<79,803>>,<<111,803>>,<<79,770,769>>,<<111,770,769>>,<<79,770,768>>,<<111,770,768>>,<<79,803,770>>,<<111,803,770>>,<<85,803>>,<<117,803>>,<<89,768>>,<<121,768>>,<<89,803>>,<<121,803>>,<<913,768>>,<<913,837>>,<<937,768>>,<<937,837>>,<<32>>,<<937>>,<<65,778>>,<<61,824>>,<<60,824>>,<<62,824>>,<<10973,824>>,<<32>>,<<107,109,50>>,<<4352,4449>>,<<4352,4449,4520>>,<<35912>>,<<102,105>>,<<102,102,105>>,<<65>>,<<69785,69818>>,<<119127,119141>>>>
Ccc_K == <<768,769,770,775,776,778,780,803,807,824,836,837,2364,69818,119141>>
Ccc_V == <<230,230,230,230,230,230,230,220,202,1,230,240,7,7,216>>
PairA_K == <<60,61,62,65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,82,83,84,85,86,87,88,89,90,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,114,115,116,117,118,119,120,121,122,194,197,199,202,207,212,220,226,229,230,231,234,239,244,252,346,347,352,353,383,913,937,4352,7778,7779,7840,7841,7864,7865,7884,7885,44032,69785>>
PairA_V == <<<<<<824>>,<<8814>>>>,<<<<824>>,<<8800>>>>,<<<<824>>,<<8815>>>>,<<<<768,769,770,775,776,778,780,803>>,<<192,193,194,550,196,197,461,7840>>>>,<<<<775,803>>,<<7682,7684>>>>,<<<<769,770,775,780,807>>,<<262,264,266,268,199>>>>,<<<<775,780,803,807>>,<<7690,270,7692,7696>>>>,<<<<768,769,770,775,776,780,803,807>>,<<200,201,202,278,203,282,7864,552>>>>,<<<<775>>,<<7710>>>>,<<<<769,770,775,780,807>>,<<500,284,288,486,290>>>>,<<<<770,775,776,780,803,807>>,<<292,7714,7718,542,7716,7720>>>>,<<<<768,769,770,775,776,780,803>>,<<204,205,206,304,207,463,7882>>>>,<<<<770>>,<<308>>>>,<<<<769,780,803,807>>,<<7728,488,7730,310>>>>,<<<<769,780,803,807>>,<<313,317,7734,315>>>>,<<<<769,775,803>>,<<7742,7744,7746>>>>,<<<<768,769,775,780,803,807>>,<<504,323,7748,327,7750,325>>>>,<<<<768,769,770,775,776,780,803>>,<<210,211,212,558,214,465,7884>>>>,<<<<769,775>>,<<7764,7766>>>>,<<<<769,775,780,803,807>>,<<340,7768,344,7770,342>>>>,<<<<769,770,775,780,803,807>>,<<346,348,7776,352,7778,350>>>>,<<<<775,780,803,807>>,<<7786,356,7788,354>>>>,<<<<768,769,770,776,778,780,803>>,<<217,218,219,220,366,467,7908>>>>,<<<<803>>,<<7806>>>>,<<<<768,769,770,775,776,803>>,<<7808,7810,372,7814,7812,7816>>>>,<<<<775,776>>,<<7818,7820>>>>,<<<<768,769,770,775,776,803>>,<<7922,221,374,7822,376,7924>>>>,<<<<769,770,775,780,803>>,<<377,7824,379,381,7826>>>>,<<<<768,769,770,775,776,778,780,803>>,<<224,225,226,551,228,229,462,7841>>>>,<<<<775,803>>,<<7683,7685>>>>,<<<<769,770,775,780,807>>,<<263,265,267,269,231>>>>,<<<<775,780,803,807>>,<<7691,271,7693,7697>>>>,<<<<768,769,770,775,776,780,803,807>>,<<232,233,234,279,235,283,7865,553>>>>,<<<<775>>,<<7711>>>>,<<<<769,770,775,780,807>>,<<501,285,289,487,291>>>>,<<<<770,775,776,780,803,807>>,<<293,7715,7719,543,7717,7721>>>>,<<<<768,769,770,776,780,803>>,<<236,237,238,239,464,7883>>>>,<<<<770,780>>,<<309,496>>>>,<<<<769,780,803,807>>,<<7729,489,7731,311>>>>,<<<<769,780,803,807>>,<<314,318,7735,316>>>>,<<<<769,775,803>>,<<7743,7745,7747>>>>,<<<<768,769,775,780,803,807>>,<<505,324,7749,328,7751,326>>>>,<<<<768,769,770,775,776,780,803>>,<<242,243,244,559,246,466,7885>>>>,<<<<769,775>>,<<7765,7767>>>>,<<<<769,775,780,803,807>>,<<341,7769,345,7771,343>>>>,<<<<769,770,775,780,803,807>>,<<347,349,7777,353,7779,351>>>>,<<<<775,776,780,803,807>>,<<7787,7831,357,7789,355>>>>,<<<<768,769,770,776,778,780,803>>,<<249,250,251,252,367,468,7909>>>>,<<<<803>>,<<7807>>>>,<<<<768,769,770,775,776,778,803>>,<<7809,7811,373,7815,7813,7832,7817>>>>,<<<<775,776>>,<<7819,7821>>>>,<<<<768,769,770,775,776,778,803>>,<<7923,253,375,7823,255,7833,7925>>>>,<<<<769,770,775,780,803>>,<<378,7825,380,382,7827>>>>,<<<<768,769>>,<<7846,7844>>>>,<<<<769>>,<<506>>>>,<<<<769>>,<<7688>>>>,<<<<768,769>>,<<7872,7870>>>>,<<<<769>>,<<7726>>>>,<<<<768,769>>,<<7890,7888>>>>,<<<<768,769,780>>,<<475,471,473>>>>,<<<<768,769>>,<<7847,7845>>>>,<<<<769>>,<<507>>>>,<<<<769>>,<<509>>>>,<<<<769>>,<<7689>>>>,<<<<768,769>>,<<7873,7871>>>>,<<<<769>>,<<7727>>>>,<<<<768,769>>,<<7891,7889>>>>,<<<<768,769,780>>,<<476,472,474>>>>,<<<<775>>,<<7780>>>>,<<<<775>>,<<7781>>>>,<<<<775>>,<<7782>>>>,<<<<775>>,<<7783>>>>,<<<<775>>,<<7835>>>>,<<<<768,769,837>>,<<8122,902,8124>>>>,<<<<768,769,837>>,<<8186,911,8188>>>>,<<<<4449>>,<<44032>>>>,<<<<775>>,<<7784>>>>,<<<<775>>,<<7785>>>>,<<<<770>>,<<7852>>>>,<<<<770>>,<<7853>>>>,<<<<770>>,<<7878>>>>,<<<<770>>,<<7879>>>>,<<<<770>>,<<7896>>>>,<<<<770>>,<<7897>>>>,<<<<4520>>,<<44033>>>>,<<<<69818>>,<<69786>>>>>>
Alphabet == {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93,94,95,96,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,123,124,125,126,127,160,178,189,192,193,194,196,197,199,200,201,202,203,204,205,206,207,210,211,212,214,217,218,219,220,221,223,224,225,226,228,229,230,231,232,233,234,235,236,237,238,239,242,243,244,246,249,250,251,252,253,255,262,263,264,265,266,267,268,269,270,271,278,279,282,283,284,285,288,289,290,291,292,293,304,305,308,309,310,311,313,314,315,316,317,318,323,324,325,326,327,328,338,340,341,342,343,344,345,346,347,348,349,350,351,352,353,354,355,356,357,366,367,372,373,374,375,376,377,378,379,380,381,382,383,461,462,463,464,465,466,467,468,471,472,473,474,475,476,486,487,488,489,496,500,501,504,505,506,507,509,542,543,550,551,552,553,558,559,768,769,770,775,776,778,780,803,807,824,836,837,902,911,913,937,2325,2364,2392,4352,4449,4520,7682,7683,7684,7685,7688,7689,7690,7691,7692,7693,7696,7697,7710,7711,7714,7715,7716,7717,7718,7719,7720,7721,7726,7727,7728,7729,7730,7731,7734,7735,7742,7743,7744,7745,7746,7747,7748,7749,7750,7751,7764,7765,7766,7767,7768,7769,7770,7771,7776,7777,7778,7779,7780,7781,7782,7783,7784,7785,7786,7787,7788,7789,7806,7807,7808,7809,7810,7811,7812,7813,7814,7815,7816,7817,7818,7819,7820,7821,7822,7823,7824,7825,7826,7827,7831,7832,7833,7835,7840,7841,7844,7845,7846,7847,7852,7853,7864,7865,7870,7871,7872,7873,7878,7879,7882,7883,7884,7885,7888,7889,7890,7891,7896,7897,7908,7909,7922,7923,7924,7925,8122,8124,8186,8188,8194,8260,8486,8491,8800,8814,8815,10972,10973,12288,13218,35912,44032,44033,63744,64257,64259,65313,69785,69786,69818,119127,119134,119141,128512}
====

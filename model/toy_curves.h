/* generated by tools/gen_toy.py; checked against libcrypto by harness toycheck */
#if TOY == 0
#define TOY_M 5
#define TOY_POLY 37
#define TOY_A 1
#define TOY_B 31
#define TOY_N 13
#define TOY_H 2
#define TOY_ALL 26
#define TOY_ARR {5, 2, 0, -1}
#define TOY_FB 1
#define TOY_NB 1
#define TOY_NBITS 4
static const unsigned short toy_x[] = {0,2,24,18,23,15,26,29,1,22,30,4,21,0,21,4,30,22,1,29,26,15,23,18,24,2};
static const unsigned short toy_y[] = {0,21,14,0,24,3,30,16,25,25,28,1,29,15,8,5,2,15,24,13,4,12,15,18,22,23};
static const unsigned short toy_inv[] = {0,1,18,28,9,23,14,12,22,4,25,16,7,15,6,13,11,24,2,29,30,26,8,5,17,10,21,31,3,19,20,27};
static const unsigned short toy_sqrt[] = {0,1,27,26,2,3,25,24,19,18,8,9,17,16,10,11,4,5,31,30,6,7,29,28,23,22,12,13,21,20,14,15};
static const unsigned short toy_quad[] = {0,65535,9,65535,11,65535,2,65535,65535,20,65535,29,65535,31,65535,22,15,65535,6,65535,4,65535,13,65535,65535,27,65535,18,65535,16,65535,25};
#endif
#if TOY == 1
#define TOY_M 9
#define TOY_POLY 529
#define TOY_A 0
#define TOY_B 502
#define TOY_N 131
#define TOY_H 4
#define TOY_ALL 524
#define TOY_ARR {9, 4, 0, -1}
#define TOY_FB 2
#define TOY_NB 1
#define TOY_NBITS 8
static const unsigned short toy_x[] = {0,1,503,387,289,316,45,67,101,395,441,65,340,385,181,96,76,21,175,288,156,106,419,422,493,482,53,95,136,393,18,122,241,46,2,129,216,314,381,257,377,267,400,85,342,294,121,403,43,221,194,75,233,397,64,60,12,236,373,479,127,116,187,73,495,157,253,496,369,263,392,145,437,170,111,234,196,133,208,120,55,135,388,323,410,219,220,337,396,376,191,56,367,438,507,110,390,449,128,54,123,306,39,349,183,432,146,455,30,213,357,164,311,362,206,380,189,89,165,58,148,93,450,469,218,444,152,153,359,139,103,147,94,248,322,15,231,329,346,298,225,424,458,407,109,331,130,409,47,370,247,341,505,199,324,126,270,160,99,50,282,271,210,290,476,461,107,230,332,250,179,98,70,405,417,207,115,500,202,32,474,292,460,81,301,159,28,463,262,261,113,108,14,244,80,333,284,182,468,13,82,451,371,83,439,3,59,162,425,38,452,104,421,471,406,494,264,321,260,27,353,19,350,7,125,91,320,209,154,228,138,31,375,275,448,87,249,69,134,100,280,372,334,240,227,176,462,193,245,259,394,378,511,488,293,459,51,492,431,79,355,308,0,308,355,79,431,492,51,459,293,488,511,378,394,259,245,193,462,176,227,240,334,372,280,100,134,69,249,87,448,275,375,31,138,228,154,209,320,91,125,7,350,19,353,27,260,321,264,494,406,471,421,104,452,38,425,162,59,3,439,83,371,451,82,13,468,182,284,333,80,244,14,108,113,261,262,463,28,159,301,81,460,292,474,32,202,500,115,207,417,405,70,98,179,250,332,230,107,461,476,290,210,271,282,50,99,160,270,126,324,199,505,341,247,370,47,409,130,331,109,407,458,424,225,298,346,329,231,15,322,248,94,147,103,139,359,153,152,444,218,469,450,93,148,58,165,89,189,380,206,362,311,164,357,213,30,455,146,432,183,349,39,306,123,54,128,449,390,110,507,438,367,56,191,376,396,337,220,219,410,323,388,135,55,120,208,133,196,234,111,170,437,145,392,263,369,496,253,157,495,73,187,116,127,479,373,236,12,60,64,397,233,75,194,221,43,403,121,294,342,85,400,267,377,257,381,314,216,129,2,46,241,122,18,393,136,95,53,482,493,422,419,106,156,288,175,21,76,96,181,385,340,65,441,395,101,67,45,316,289,387,503,1};
static const unsigned short toy_y[] = {0,488,236,405,208,161,276,191,491,77,271,270,24,387,293,394,406,416,213,66,192,353,229,492,364,245,235,303,435,423,198,421,312,301,339,83,241,379,421,443,451,320,343,370,165,261,379,45,229,261,458,44,3,91,23,328,110,478,161,268,213,217,378,232,301,135,86,105,227,162,365,240,157,416,174,316,361,314,5,186,53,79,73,56,426,134,83,321,414,255,287,100,357,2,254,6,201,236,218,218,491,70,310,503,111,233,217,335,501,270,256,92,464,362,400,178,54,426,389,53,410,14,363,19,106,396,488,369,470,58,473,423,454,117,338,321,57,107,347,135,19,109,216,194,196,81,317,75,471,300,202,225,86,368,127,79,372,353,356,377,189,499,222,170,361,243,276,63,252,3,233,377,338,283,122,232,153,446,427,14,69,384,315,116,435,192,478,30,24,381,492,208,451,420,377,413,255,108,328,56,74,105,343,70,304,195,323,506,46,48,166,114,22,59,314,429,237,444,338,449,70,16,31,447,14,322,502,342,234,354,110,204,180,314,275,474,182,77,110,255,113,175,56,302,436,424,387,238,239,233,71,496,498,160,375,482,105,177,262,460,137,19,308,295,490,387,169,349,90,41,82,328,13,138,461,490,26,47,77,280,343,478,374,475,361,155,232,8,79,397,211,41,451,211,228,390,112,391,182,281,115,440,321,3,295,474,86,253,485,67,172,492,435,26,354,22,391,344,376,192,135,21,36,426,24,53,156,218,483,208,297,336,461,188,413,120,286,465,450,95,158,37,247,164,415,46,353,74,234,39,475,142,276,283,90,249,432,217,383,318,181,392,12,252,423,331,263,449,122,49,315,439,431,436,61,94,504,466,447,282,169,341,274,453,242,429,1,290,222,334,16,141,408,308,446,177,177,488,368,48,176,454,169,83,270,15,288,499,139,462,350,0,231,248,101,475,491,136,75,345,216,170,273,372,400,236,90,301,335,104,261,436,10,92,416,391,18,16,143,93,48,379,461,200,2,194,213,447,429,470,193,266,296,97,229,421,402,409,171,26,194,161,449,173,170,211,468,306,98,372,87,470,234,103,264,472,206,446,258,35,499,295,199,75,186,186,216,65,41,210,337,259,457,479,212,46,315,368,222,279,129,74,326,267,92,354,122,437,474,490,400,2,332,335,182,454,398,252,313,413,497,22,283,489};
static const unsigned short toy_inv[] = {0,1,264,496,132,351,248,358,66,301,423,453,124,307,179,314,33,281,414,458,475,122,490,286,62,472,401,276,337,332,157,48,280,16,388,256,207,293,229,196,485,127,61,327,245,259,143,509,31,156,236,247,448,329,138,169,416,261,166,200,326,42,24,473,140,183,8,300,194,108,128,489,367,297,410,268,378,439,98,510,506,483,311,116,278,418,427,440,370,103,393,282,335,365,502,199,263,136,78,511,118,271,371,89,224,435,428,424,69,195,348,227,208,171,394,193,83,310,100,270,163,504,21,474,12,306,484,41,70,488,339,274,4,350,150,238,97,262,54,168,64,182,508,46,447,187,412,406,205,432,134,239,189,250,467,234,49,30,255,285,253,243,505,120,403,346,58,201,139,55,209,113,477,330,220,266,185,430,315,14,460,385,141,65,431,176,446,145,251,152,363,457,395,115,68,109,39,228,503,95,59,167,399,294,433,148,292,36,112,170,465,409,214,355,212,354,298,450,361,231,174,267,377,372,104,434,349,111,197,38,360,219,289,470,155,466,50,246,135,151,345,487,252,161,258,44,237,51,6,359,153,188,242,160,284,158,35,389,244,45,417,57,137,96,2,497,175,221,75,411,119,101,312,494,131,338,27,400,84,419,32,17,91,392,254,159,23,491,471,232,341,353,206,37,203,398,366,73,216,451,67,9,383,493,342,386,125,13,481,421,117,82,272,495,15,178,375,321,390,454,374,317,369,478,500,468,60,43,449,53,173,476,29,336,364,92,333,28,275,130,352,290,304,387,486,240,165,402,110,226,133,5,340,291,215,213,405,462,7,249,230,218,456,190,334,93,296,72,479,322,88,102,223,376,320,316,373,222,76,438,445,437,492,302,461,181,305,343,34,257,318,455,283,90,114,192,499,442,295,202,277,26,347,164,463,356,147,413,464,211,74,269,146,407,18,459,56,260,85,279,480,309,452,10,107,429,441,86,106,425,177,184,149,204,225,105,444,381,379,77,87,426,397,498,436,380,186,144,52,328,217,299,422,11,319,391,362,191,19,415,180,384,357,404,408,210,235,154,325,501,233,288,25,63,123,20,331,172,323,368,420,308,507,81,126,40,344,241,129,71,22,287,382,303,273,313,3,265,443,396,324,469,94,198,121,162,80,482,142,47,79,99};
static const unsigned short toy_sqrt[] = {0,1,165,164,2,3,167,166,330,331,495,494,328,329,493,492,4,5,161,160,6,7,163,162,334,335,491,490,332,333,489,488,133,132,32,33,135,134,34,35,463,462,362,363,461,460,360,361,129,128,36,37,131,130,38,39,459,458,366,367,457,456,364,365,8,9,173,172,10,11,175,174,322,323,487,486,320,321,485,484,12,13,169,168,14,15,171,170,326,327,483,482,324,325,481,480,141,140,40,41,143,142,42,43,455,454,354,355,453,452,352,353,137,136,44,45,139,138,46,47,451,450,358,359,449,448,356,357,266,267,431,430,264,265,429,428,64,65,229,228,66,67,231,230,270,271,427,426,268,269,425,424,68,69,225,224,70,71,227,226,399,398,298,299,397,396,296,297,197,196,96,97,199,198,98,99,395,394,302,303,393,392,300,301,193,192,100,101,195,194,102,103,258,259,423,422,256,257,421,420,72,73,237,236,74,75,239,238,262,263,419,418,260,261,417,416,76,77,233,232,78,79,235,234,391,390,290,291,389,388,288,289,205,204,104,105,207,206,106,107,387,386,294,295,385,384,292,293,201,200,108,109,203,202,110,111,16,17,181,180,18,19,183,182,346,347,511,510,344,345,509,508,20,21,177,176,22,23,179,178,350,351,507,506,348,349,505,504,149,148,48,49,151,150,50,51,479,478,378,379,477,476,376,377,145,144,52,53,147,146,54,55,475,474,382,383,473,472,380,381,24,25,189,188,26,27,191,190,338,339,503,502,336,337,501,500,28,29,185,184,30,31,187,186,342,343,499,498,340,341,497,496,157,156,56,57,159,158,58,59,471,470,370,371,469,468,368,369,153,152,60,61,155,154,62,63,467,466,374,375,465,464,372,373,282,283,447,446,280,281,445,444,80,81,245,244,82,83,247,246,286,287,443,442,284,285,441,440,84,85,241,240,86,87,243,242,415,414,314,315,413,412,312,313,213,212,112,113,215,214,114,115,411,410,318,319,409,408,316,317,209,208,116,117,211,210,118,119,274,275,439,438,272,273,437,436,88,89,253,252,90,91,255,254,278,279,435,434,276,277,433,432,92,93,249,248,94,95,251,250,407,406,306,307,405,404,304,305,221,220,120,121,223,222,122,123,403,402,310,311,401,400,308,309,217,216,124,125,219,218,126,127};
static const unsigned short toy_quad[] = {0,65535,33,65535,35,65535,2,65535,340,65535,373,65535,375,65535,342,65535,39,65535,6,65535,4,65535,37,65535,371,65535,338,65535,336,65535,369,65535,65535,239,65535,206,65535,204,65535,237,65535,443,65535,410,65535,408,65535,441,65535,200,65535,233,65535,235,65535,202,65535,412,65535,445,65535,447,65535,414,348,65535,381,65535,383,65535,350,65535,8,65535,41,65535,43,65535,10,65535,379,65535,346,65535,344,65535,377,65535,47,65535,14,65535,12,65535,45,65535,65535,435,65535,402,65535,400,65535,433,65535,231,65535,198,65535,196,65535,229,65535,404,65535,437,65535,439,65535,406,65535,192,65535,225,65535,227,65535,194,72,65535,105,65535,107,65535,74,65535,284,65535,317,65535,319,65535,286,65535,111,65535,78,65535,76,65535,109,65535,315,65535,282,65535,280,65535,313,65535,65535,167,65535,134,65535,132,65535,165,65535,499,65535,466,65535,464,65535,497,65535,128,65535,161,65535,163,65535,130,65535,468,65535,501,65535,503,65535,470,276,65535,309,65535,311,65535,278,65535,64,65535,97,65535,99,65535,66,65535,307,65535,274,65535,272,65535,305,65535,103,65535,70,65535,68,65535,101,65535,65535,507,65535,474,65535,472,65535,505,65535,175,65535,142,65535,140,65535,173,65535,476,65535,509,65535,511,65535,478,65535,136,65535,169,65535,171,65535,138,55,65535,22,65535,20,65535,53,65535,355,65535,322,65535,320,65535,353,65535,16,65535,49,65535,51,65535,18,65535,324,65535,357,65535,359,65535,326,65535,65535,216,65535,249,65535,251,65535,218,65535,396,65535,429,65535,431,65535,398,65535,255,65535,222,65535,220,65535,253,65535,427,65535,394,65535,392,65535,425,363,65535,330,65535,328,65535,361,65535,63,65535,30,65535,28,65535,61,65535,332,65535,365,65535,367,65535,334,65535,24,65535,57,65535,59,65535,26,65535,65535,388,65535,421,65535,423,65535,390,65535,208,65535,241,65535,243,65535,210,65535,419,65535,386,65535,384,65535,417,65535,247,65535,214,65535,212,65535,245,127,65535,94,65535,92,65535,125,65535,299,65535,266,65535,264,65535,297,65535,88,65535,121,65535,123,65535,90,65535,268,65535,301,65535,303,65535,270,65535,65535,144,65535,177,65535,179,65535,146,65535,452,65535,485,65535,487,65535,454,65535,183,65535,150,65535,148,65535,181,65535,483,65535,450,65535,448,65535,481,291,65535,258,65535,256,65535,289,65535,119,65535,86,65535,84,65535,117,65535,260,65535,293,65535,295,65535,262,65535,80,65535,113,65535,115,65535,82,65535,65535,460,65535,493,65535,495,65535,462,65535,152,65535,185,65535,187,65535,154,65535,491,65535,458,65535,456,65535,489,65535,191,65535,158,65535,156,65535,189};
#endif
#if TOY == 2
#define TOY_M 9
#define TOY_POLY 529
#define TOY_A 1
#define TOY_B 510
#define TOY_N 263
#define TOY_H 2
#define TOY_ALL 526
#define TOY_ARR {9, 4, 0, -1}
#define TOY_FB 2
#define TOY_NB 2
#define TOY_NBITS 9
static const unsigned short toy_x[] = {0,4,449,90,48,138,395,20,302,10,27,115,325,264,223,33,366,243,331,237,11,218,420,161,230,175,335,421,91,61,347,313,143,154,364,423,236,262,337,507,120,233,397,431,473,284,360,390,257,489,250,55,283,8,436,212,9,245,292,417,93,408,461,447,300,404,228,227,166,92,343,260,442,39,446,53,372,355,463,497,211,200,426,437,108,464,168,206,242,429,81,64,205,173,504,231,451,191,15,363,457,127,411,241,56,105,176,427,475,18,496,194,21,24,265,410,393,189,224,365,182,334,17,185,459,117,52,499,440,398,77,301,415,47,275,470,296,78,190,121,139,402,271,136,203,297,221,433,98,84,129,6,135,130,7,43,424,276,471,134,131,441,40,16,110,167,465,266,288,132,444,196,246,379,281,493,401,396,259,249,162,202,263,381,65,282,453,216,318,406,104,342,248,435,58,377,83,22,213,509,316,305,413,369,38,373,430,14,327,332,387,208,199,163,5,183,351,291,273,255,362,72,153,474,261,458,368,152,285,68,287,338,354,30,170,272,60,181,195,247,374,505,137,456,240,388,294,392,467,317,252,101,494,501,508,94,254,400,352,328,174,320,279,0,279,320,174,328,352,400,254,94,508,501,494,101,252,317,467,392,294,388,240,456,137,505,374,247,195,181,60,272,170,30,354,338,287,68,285,152,368,458,261,474,153,72,362,255,273,291,351,183,5,163,199,208,387,332,327,14,430,373,38,369,413,305,316,509,213,22,83,377,58,435,248,342,104,406,318,216,453,282,65,381,263,202,162,249,259,396,401,493,281,379,246,196,444,132,288,266,465,167,110,16,40,441,131,134,471,276,424,43,7,130,135,6,129,84,98,433,221,297,203,136,271,402,139,121,190,78,296,470,275,47,415,301,77,398,440,499,52,117,459,185,17,334,182,365,224,189,393,410,265,24,21,194,496,18,475,427,176,105,56,241,411,127,457,363,15,191,451,231,504,173,205,64,81,429,242,206,168,464,108,437,426,200,211,497,463,355,372,53,446,39,442,260,343,92,166,227,228,404,300,447,461,408,93,417,292,245,9,212,436,8,283,55,250,489,257,390,360,284,473,431,397,233,120,507,337,262,236,423,364,154,143,313,347,61,91,421,335,175,230,161,420,218,11,237,331,243,366,33,223,264,325,115,27,10,302,20,395,138,48,90,449,4};
static const unsigned short toy_y[] = {0,186,41,341,358,185,141,231,187,130,221,1,422,154,299,296,239,0,474,156,317,330,63,475,243,499,22,166,255,454,202,110,242,178,511,76,397,309,390,27,324,32,51,264,442,228,285,311,19,179,213,43,493,106,130,300,108,104,171,469,217,470,427,317,366,275,84,87,373,497,172,407,174,264,310,445,217,479,384,341,3,292,255,136,270,62,69,489,231,327,443,430,17,86,161,0,212,499,106,507,504,34,479,324,2,147,189,164,366,36,271,336,21,211,336,294,129,501,394,407,345,161,482,462,402,263,322,138,493,283,175,408,44,434,340,5,497,142,482,460,309,425,119,460,445,429,441,314,158,388,200,108,186,56,101,456,196,301,373,56,190,335,396,348,277,5,430,468,152,75,223,432,408,30,248,111,494,185,260,294,335,322,446,182,62,335,50,457,448,107,511,454,188,361,159,65,170,381,228,156,63,477,380,467,129,132,129,98,4,70,160,83,230,246,56,22,319,112,397,322,172,67,166,408,250,154,5,259,300,9,38,269,294,476,410,353,172,391,89,181,39,495,437,300,460,194,140,167,484,411,305,452,287,286,113,510,392,62,124,307,332,466,368,126,103,146,482,123,284,430,374,416,397,235,241,417,461,166,55,303,426,326,316,228,316,22,337,66,154,306,144,113,304,450,68,95,313,77,49,411,373,336,511,66,63,11,454,445,156,339,96,161,61,85,33,131,291,266,323,108,303,497,167,162,225,236,259,353,49,363,249,312,165,218,68,144,407,509,254,273,503,85,127,459,185,392,493,479,7,309,127,386,481,357,366,372,355,207,440,222,127,162,379,332,420,246,61,190,162,57,364,483,98,186,61,106,73,464,252,139,356,132,374,324,376,59,446,437,348,192,217,467,71,413,435,181,226,149,85,377,374,370,89,375,499,495,495,250,362,328,264,188,89,203,0,402,255,54,181,271,13,250,58,437,68,93,49,144,101,332,279,231,345,251,220,494,490,234,21,295,237,494,354,317,341,492,208,164,79,188,429,392,136,303,276,147,507,429,467,180,176,135,66,130,102,78,132,116,399,157,101,504,310,98,246,28,47,346,274,177,117,504,99,167,446,201,316,480,215,51,353,491,147,40,125,343,401,507,164,259,345,348,21,378,411,400,310,113,145,243,385,265,500,402,227,114,198,136,405,243,262,51,342,271,488,190};
static const unsigned short toy_inv[] = {0,1,264,496,132,351,248,358,66,301,423,453,124,307,179,314,33,281,414,458,475,122,490,286,62,472,401,276,337,332,157,48,280,16,388,256,207,293,229,196,485,127,61,327,245,259,143,509,31,156,236,247,448,329,138,169,416,261,166,200,326,42,24,473,140,183,8,300,194,108,128,489,367,297,410,268,378,439,98,510,506,483,311,116,278,418,427,440,370,103,393,282,335,365,502,199,263,136,78,511,118,271,371,89,224,435,428,424,69,195,348,227,208,171,394,193,83,310,100,270,163,504,21,474,12,306,484,41,70,488,339,274,4,350,150,238,97,262,54,168,64,182,508,46,447,187,412,406,205,432,134,239,189,250,467,234,49,30,255,285,253,243,505,120,403,346,58,201,139,55,209,113,477,330,220,266,185,430,315,14,460,385,141,65,431,176,446,145,251,152,363,457,395,115,68,109,39,228,503,95,59,167,399,294,433,148,292,36,112,170,465,409,214,355,212,354,298,450,361,231,174,267,377,372,104,434,349,111,197,38,360,219,289,470,155,466,50,246,135,151,345,487,252,161,258,44,237,51,6,359,153,188,242,160,284,158,35,389,244,45,417,57,137,96,2,497,175,221,75,411,119,101,312,494,131,338,27,400,84,419,32,17,91,392,254,159,23,491,471,232,341,353,206,37,203,398,366,73,216,451,67,9,383,493,342,386,125,13,481,421,117,82,272,495,15,178,375,321,390,454,374,317,369,478,500,468,60,43,449,53,173,476,29,336,364,92,333,28,275,130,352,290,304,387,486,240,165,402,110,226,133,5,340,291,215,213,405,462,7,249,230,218,456,190,334,93,296,72,479,322,88,102,223,376,320,316,373,222,76,438,445,437,492,302,461,181,305,343,34,257,318,455,283,90,114,192,499,442,295,202,277,26,347,164,463,356,147,413,464,211,74,269,146,407,18,459,56,260,85,279,480,309,452,10,107,429,441,86,106,425,177,184,149,204,225,105,444,381,379,77,87,426,397,498,436,380,186,144,52,328,217,299,422,11,319,391,362,191,19,415,180,384,357,404,408,210,235,154,325,501,233,288,25,63,123,20,331,172,323,368,420,308,507,81,126,40,344,241,129,71,22,287,382,303,273,313,3,265,443,396,324,469,94,198,121,162,80,482,142,47,79,99};
static const unsigned short toy_sqrt[] = {0,1,165,164,2,3,167,166,330,331,495,494,328,329,493,492,4,5,161,160,6,7,163,162,334,335,491,490,332,333,489,488,133,132,32,33,135,134,34,35,463,462,362,363,461,460,360,361,129,128,36,37,131,130,38,39,459,458,366,367,457,456,364,365,8,9,173,172,10,11,175,174,322,323,487,486,320,321,485,484,12,13,169,168,14,15,171,170,326,327,483,482,324,325,481,480,141,140,40,41,143,142,42,43,455,454,354,355,453,452,352,353,137,136,44,45,139,138,46,47,451,450,358,359,449,448,356,357,266,267,431,430,264,265,429,428,64,65,229,228,66,67,231,230,270,271,427,426,268,269,425,424,68,69,225,224,70,71,227,226,399,398,298,299,397,396,296,297,197,196,96,97,199,198,98,99,395,394,302,303,393,392,300,301,193,192,100,101,195,194,102,103,258,259,423,422,256,257,421,420,72,73,237,236,74,75,239,238,262,263,419,418,260,261,417,416,76,77,233,232,78,79,235,234,391,390,290,291,389,388,288,289,205,204,104,105,207,206,106,107,387,386,294,295,385,384,292,293,201,200,108,109,203,202,110,111,16,17,181,180,18,19,183,182,346,347,511,510,344,345,509,508,20,21,177,176,22,23,179,178,350,351,507,506,348,349,505,504,149,148,48,49,151,150,50,51,479,478,378,379,477,476,376,377,145,144,52,53,147,146,54,55,475,474,382,383,473,472,380,381,24,25,189,188,26,27,191,190,338,339,503,502,336,337,501,500,28,29,185,184,30,31,187,186,342,343,499,498,340,341,497,496,157,156,56,57,159,158,58,59,471,470,370,371,469,468,368,369,153,152,60,61,155,154,62,63,467,466,374,375,465,464,372,373,282,283,447,446,280,281,445,444,80,81,245,244,82,83,247,246,286,287,443,442,284,285,441,440,84,85,241,240,86,87,243,242,415,414,314,315,413,412,312,313,213,212,112,113,215,214,114,115,411,410,318,319,409,408,316,317,209,208,116,117,211,210,118,119,274,275,439,438,272,273,437,436,88,89,253,252,90,91,255,254,278,279,435,434,276,277,433,432,92,93,249,248,94,95,251,250,407,406,306,307,405,404,304,305,221,220,120,121,223,222,122,123,403,402,310,311,401,400,308,309,217,216,124,125,219,218,126,127};
static const unsigned short toy_quad[] = {0,65535,33,65535,35,65535,2,65535,340,65535,373,65535,375,65535,342,65535,39,65535,6,65535,4,65535,37,65535,371,65535,338,65535,336,65535,369,65535,65535,239,65535,206,65535,204,65535,237,65535,443,65535,410,65535,408,65535,441,65535,200,65535,233,65535,235,65535,202,65535,412,65535,445,65535,447,65535,414,348,65535,381,65535,383,65535,350,65535,8,65535,41,65535,43,65535,10,65535,379,65535,346,65535,344,65535,377,65535,47,65535,14,65535,12,65535,45,65535,65535,435,65535,402,65535,400,65535,433,65535,231,65535,198,65535,196,65535,229,65535,404,65535,437,65535,439,65535,406,65535,192,65535,225,65535,227,65535,194,72,65535,105,65535,107,65535,74,65535,284,65535,317,65535,319,65535,286,65535,111,65535,78,65535,76,65535,109,65535,315,65535,282,65535,280,65535,313,65535,65535,167,65535,134,65535,132,65535,165,65535,499,65535,466,65535,464,65535,497,65535,128,65535,161,65535,163,65535,130,65535,468,65535,501,65535,503,65535,470,276,65535,309,65535,311,65535,278,65535,64,65535,97,65535,99,65535,66,65535,307,65535,274,65535,272,65535,305,65535,103,65535,70,65535,68,65535,101,65535,65535,507,65535,474,65535,472,65535,505,65535,175,65535,142,65535,140,65535,173,65535,476,65535,509,65535,511,65535,478,65535,136,65535,169,65535,171,65535,138,55,65535,22,65535,20,65535,53,65535,355,65535,322,65535,320,65535,353,65535,16,65535,49,65535,51,65535,18,65535,324,65535,357,65535,359,65535,326,65535,65535,216,65535,249,65535,251,65535,218,65535,396,65535,429,65535,431,65535,398,65535,255,65535,222,65535,220,65535,253,65535,427,65535,394,65535,392,65535,425,363,65535,330,65535,328,65535,361,65535,63,65535,30,65535,28,65535,61,65535,332,65535,365,65535,367,65535,334,65535,24,65535,57,65535,59,65535,26,65535,65535,388,65535,421,65535,423,65535,390,65535,208,65535,241,65535,243,65535,210,65535,419,65535,386,65535,384,65535,417,65535,247,65535,214,65535,212,65535,245,127,65535,94,65535,92,65535,125,65535,299,65535,266,65535,264,65535,297,65535,88,65535,121,65535,123,65535,90,65535,268,65535,301,65535,303,65535,270,65535,65535,144,65535,177,65535,179,65535,146,65535,452,65535,485,65535,487,65535,454,65535,183,65535,150,65535,148,65535,181,65535,483,65535,450,65535,448,65535,481,291,65535,258,65535,256,65535,289,65535,119,65535,86,65535,84,65535,117,65535,260,65535,293,65535,295,65535,262,65535,80,65535,113,65535,115,65535,82,65535,65535,460,65535,493,65535,495,65535,462,65535,152,65535,185,65535,187,65535,154,65535,491,65535,458,65535,456,65535,489,65535,191,65535,158,65535,156,65535,189};
#endif
#if TOY == 3
#define TOY_M 5
#define TOY_POLY 61
#define TOY_A 0
#define TOY_B 22
#define TOY_N 7
#define TOY_H 4
#define TOY_ALL 28
#define TOY_ARR {5, 4, 3, 2, 0, -1}
#define TOY_FB 1
#define TOY_NB 1
#define TOY_NBITS 3
static const unsigned short toy_x[] = {0,1,23,11,5,22,9,21,15,14,27,28,20,13,0,13,20,28,27,14,15,21,9,22,5,11,23,1};
static const unsigned short toy_y[] = {0,28,7,11,4,2,22,24,28,18,15,26,17,25,13,20,5,6,20,28,19,13,31,20,1,0,16,29};
static const unsigned short toy_inv[] = {0,1,30,20,15,12,10,26,25,29,6,27,5,14,13,4,18,23,16,22,3,31,19,17,28,8,7,11,24,9,2,21};
static const unsigned short toy_sqrt[] = {0,1,11,10,2,3,9,8,22,23,29,28,20,21,31,30,4,5,15,14,6,7,13,12,18,19,25,24,16,17,27,26};
static const unsigned short toy_quad[] = {0,65535,65535,24,65535,27,3,65535,65535,10,18,65535,17,65535,65535,9,65535,30,6,65535,5,65535,65535,29,20,65535,65535,12,65535,15,23,65535};
#endif
#if TOY == 4
#define TOY_M 7
#define TOY_POLY 131
#define TOY_A 1
#define TOY_B 127
#define TOY_N 59
#define TOY_H 2
#define TOY_ALL 118
#define TOY_ARR {7, 1, 0, -1}
#define TOY_FB 1
#define TOY_NB 1
#define TOY_NBITS 6
static const unsigned short toy_x[] = {0,2,59,68,101,8,19,104,37,40,107,12,87,114,125,116,21,58,105,20,7,54,13,74,57,92,103,30,63,100,5,32,111,80,115,70,17,88,81,38,25,108,109,96,119,4,35,62,43,122,77,34,11,14,127,46,83,120,121,0,121,120,83,46,127,14,11,34,77,122,43,62,35,4,119,96,109,108,25,38,81,88,17,70,115,80,111,32,5,100,63,30,103,92,57,74,13,54,7,20,105,58,21,116,125,114,87,12,107,40,37,104,19,8,101,68,59,2};
static const unsigned short toy_y[] = {0,108,27,41,6,47,26,11,30,10,104,99,123,53,87,118,72,31,6,48,52,79,11,94,65,21,0,75,31,111,32,25,78,23,23,80,13,56,53,68,107,72,48,97,74,27,71,37,88,77,50,23,126,122,67,83,95,48,93,113,36,72,12,125,60,116,117,53,127,55,115,27,100,31,61,1,93,36,114,98,100,96,28,22,100,71,33,57,37,11,32,85,103,73,120,20,6,121,51,36,111,37,93,2,42,71,44,111,3,34,59,99,9,39,99,109,32,110};
static const unsigned short toy_inv[] = {0,1,65,126,97,42,63,54,113,18,21,74,94,79,27,103,121,92,9,112,75,10,37,68,47,35,102,14,76,71,114,110,125,91,46,25,69,22,56,61,100,119,5,96,83,123,34,24,86,116,80,52,51,81,7,62,38,60,98,73,57,39,55,6,127,2,108,84,23,36,77,29,99,59,11,20,28,70,95,13,50,53,122,44,67,109,48,117,104,107,124,33,17,120,12,78,43,4,58,72,40,118,26,15,88,106,105,89,66,85,31,115,19,8,30,111,49,87,101,41,93,16,82,45,90,32,3,64};
static const unsigned short toy_sqrt[] = {0,1,18,19,2,3,16,17,36,37,54,55,38,39,52,53,4,5,22,23,6,7,20,21,32,33,50,51,34,35,48,49,72,73,90,91,74,75,88,89,108,109,126,127,110,111,124,125,76,77,94,95,78,79,92,93,104,105,122,123,106,107,120,121,8,9,26,27,10,11,24,25,44,45,62,63,46,47,60,61,12,13,30,31,14,15,28,29,40,41,58,59,42,43,56,57,64,65,82,83,66,67,80,81,100,101,118,119,102,103,116,117,68,69,86,87,70,71,84,85,96,97,114,115,98,99,112,113};
static const unsigned short toy_quad[] = {0,65535,20,65535,22,65535,2,65535,114,65535,102,65535,100,65535,112,65535,18,65535,6,65535,4,65535,16,65535,96,65535,116,65535,118,65535,98,65535,64,65535,84,65535,86,65535,66,65535,50,65535,38,65535,36,65535,48,65535,82,65535,70,65535,68,65535,80,65535,32,65535,52,65535,54,65535,34,65535,122,65535,110,65535,108,65535,120,65535,8,65535,28,65535,30,65535,10,65535,104,65535,124,65535,126,65535,106,65535,26,65535,14,65535,12,65535,24,65535,58,65535,46,65535,44,65535,56,65535,72,65535,92,65535,94,65535,74,65535,40,65535,60,65535,62,65535,42,65535,90,65535,78,65535,76,65535,88,65535};
#endif

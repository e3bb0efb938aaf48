// written by tools/dh_edges.py
static const uint8_t edges25519[][3][32] = {
{{23,48,112,223,172,6,172,112,146,27,201,198,157,40,224,46,183,60,202,155,17,184,1,1,85,125,170,198,70,111,150,204},{131,18,178,211,135,134,154,237,144,144,150,48,136,226,39,141,200,19,149,91,43,65,251,104,172,52,191,206,153,103,143,93},{16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{167,116,89,38,31,234,30,44,112,53,61,36,54,213,54,121,55,107,125,158,46,68,166,185,93,97,206,30,223,47,117,142},{126,247,47,116,108,170,138,237,231,244,88,45,8,188,207,233,226,57,82,40,148,117,252,175,104,33,67,92,108,81,220,90},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{202,49,207,15,229,144,115,83,176,68,173,174,84,128,178,132,183,174,221,135,65,112,49,142,209,68,132,123,178,20,198,200},{156,5,65,115,149,118,176,246,39,27,112,42,19,116,195,122,234,223,29,59,130,144,191,75,145,29,159,121,235,191,205,53},{9,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{43,14,200,198,153,252,41,27,202,55,27,226,95,145,111,143,148,236,139,14,249,82,157,63,88,112,249,48,144,9,228,70},{211,143,71,30,148,142,101,178,195,223,99,164,249,5,23,3,143,222,149,13,128,242,58,62,242,85,0,192,86,79,247,61},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,31,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{225,139,205,10,90,231,178,197,145,213,5,25,82,139,249,129,44,205,193,115,64,127,205,143,194,53,34,7,7,233,142,194},{223,166,188,51,185,223,156,144,98,123,234,251,0,26,128,35,255,31,244,66,41,59,249,6,31,15,214,3,147,52,117,81},{255,255,255,255,255,255,255,255,255,7,0,0,240,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{185,249,221,228,238,208,152,233,181,240,56,16,10,186,120,113,67,106,91,83,152,160,206,156,57,35,46,249,6,238,107,129},{118,144,52,22,57,145,103,19,76,223,133,246,61,214,167,6,23,151,176,182,71,241,11,160,176,235,104,30,211,242,215,109},{254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,31,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{192,214,43,155,191,3,29,131,163,22,12,51,173,209,86,177,180,161,245,70,3,239,204,115,143,133,22,130,232,100,133,136},{25,172,80,76,26,183,133,64,108,205,150,171,63,232,41,53,211,204,73,163,133,66,46,181,13,1,2,109,77,241,15,37},{52,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{21,73,175,206,131,150,96,122,158,6,252,129,206,55,6,241,222,94,102,63,123,241,255,178,91,17,241,133,20,161,100,224},{214,151,34,224,56,10,226,234,248,165,232,253,199,83,240,91,154,84,147,167,5,162,53,29,245,152,253,231,252,71,199,32},{237,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,127}},
{{92,1,64,224,45,191,50,241,30,233,132,237,235,163,116,66,5,150,59,236,227,75,60,143,98,150,139,228,210,242,121,241},{27,20,251,27,203,130,48,155,209,29,238,120,93,237,128,252,12,112,86,190,98,213,86,238,15,125,179,137,168,168,231,93},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127,0,0,0,0,0,0,0,0,0}},
{{127,215,220,51,209,57,10,215,189,53,145,114,20,62,27,35,224,185,168,106,208,157,34,31,228,253,113,100,179,166,46,113},{33,103,149,204,89,123,131,37,197,0,203,154,218,107,209,32,243,189,230,198,187,4,174,248,71,114,216,11,86,182,81,69},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127,0,0,0,255,255,255,255,255,255,127}},
{{84,13,228,80,133,97,146,18,251,215,208,171,121,128,154,61,135,154,167,109,237,10,184,18,174,214,114,54,205,134,98,171},{0,100,3,48,159,136,186,19,193,160,237,60,226,75,9,16,212,5,177,90,120,20,132,204,111,229,72,53,142,142,124,103},{206,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{172,254,130,77,238,7,176,200,101,82,82,31,62,134,163,229,242,13,229,198,89,208,137,39,133,96,131,240,238,161,83,183},{180,250,158,193,128,62,10,29,102,99,154,128,155,59,14,110,15,18,89,241,179,242,126,219,230,85,211,103,122,190,239,40},{254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,0,0,0}},
{{196,169,185,164,47,146,6,169,35,48,190,93,132,69,154,36,208,172,203,64,34,85,1,226,30,30,35,35,223,3,177,247},{251,42,132,124,73,143,81,202,205,114,60,125,112,61,39,16,145,222,81,224,244,229,101,179,80,194,189,193,231,154,4,13},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,3,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{31,137,189,119,101,232,54,56,160,142,38,191,130,79,215,243,244,154,24,24,134,41,244,101,4,246,138,226,90,31,189,124},{235,228,253,121,190,242,130,196,224,27,242,253,50,185,179,21,12,61,26,202,175,44,104,226,143,52,195,248,172,51,8,8},{209,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{165,241,172,41,59,55,104,253,243,25,247,170,21,24,27,213,107,51,69,57,240,214,85,41,193,158,209,180,164,54,120,110},{109,209,203,139,71,65,102,134,244,209,176,59,78,163,176,42,150,65,76,9,255,190,153,133,223,6,251,232,149,224,35,69},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,1,0,0,0,0,0}},
{{228,138,123,254,123,177,254,131,103,19,96,103,205,80,208,86,118,198,216,107,150,82,28,50,117,27,75,91,82,228,138,81},{244,99,164,96,220,46,114,126,52,5,51,187,162,135,109,227,135,79,47,144,246,185,157,209,37,110,238,145,125,182,214,36},{221,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{30,7,154,23,129,224,222,184,109,16,175,93,85,213,252,4,36,214,133,86,185,60,214,141,137,114,107,117,161,220,193,112},{168,165,160,179,42,24,225,98,8,206,86,99,145,135,180,27,148,37,56,111,235,54,28,59,176,169,165,45,90,75,237,24},{2,0,0,0,0,0,0,0,0,0,0,0,64,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{133,186,1,180,71,5,161,4,186,103,100,98,165,11,221,84,140,139,118,132,80,175,185,159,97,225,162,75,245,158,35,131},{53,61,203,34,101,31,0,236,2,187,11,233,132,80,167,182,104,200,21,119,169,237,153,117,169,231,174,148,155,158,232,124},{185,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{237,84,245,245,151,92,117,16,12,188,227,28,89,106,46,252,161,248,37,235,80,41,210,201,89,129,130,58,251,16,193,248},{226,254,133,137,119,235,145,144,80,241,245,40,40,157,79,6,119,75,193,153,255,97,248,53,35,250,198,108,244,40,158,91},{255,255,255,255,255,255,255,255,255,255,255,255,63,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{19,62,91,224,241,213,210,26,3,10,133,21,39,5,252,67,92,148,156,69,133,115,34,10,246,249,232,231,63,96,108,199},{124,59,253,19,194,76,115,123,175,32,235,16,19,110,238,139,245,236,86,114,92,32,168,74,71,142,8,196,158,29,230,55},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,31,0,0,0,0,0,0}},
{{233,38,122,46,145,244,59,69,98,146,122,193,155,141,42,33,83,236,220,209,130,217,24,108,123,150,126,217,105,106,82,233},{248,144,101,98,54,142,145,9,213,189,230,27,102,247,77,208,227,86,99,91,157,55,206,110,193,165,79,142,38,228,177,126},{254,255,255,255,255,255,255,255,255,255,255,255,63,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{182,155,12,173,55,155,168,209,130,40,45,242,84,51,52,66,106,50,236,103,94,250,60,38,107,139,94,137,227,210,78,235},{40,34,169,62,108,149,168,158,191,79,38,145,152,84,215,70,100,122,92,96,245,69,24,134,2,9,248,124,70,2,32,61},{186,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{40,203,200,131,76,130,18,146,29,229,158,126,206,142,78,179,119,115,185,83,195,254,230,22,135,160,112,71,168,14,186,14},{36,21,12,26,70,229,8,185,56,63,165,176,85,13,106,51,251,96,61,195,144,203,138,190,208,149,122,12,166,46,53,118},{0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{29,197,177,204,141,61,46,176,121,162,239,46,194,147,225,108,96,105,49,229,250,186,137,18,83,42,216,68,198,175,55,240},{108,41,175,78,233,75,136,228,241,209,239,206,178,74,135,162,67,198,154,208,37,89,175,114,255,56,116,244,66,159,62,123},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,32,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{116,21,79,4,174,160,106,162,145,65,172,22,14,136,55,205,85,135,179,66,107,38,112,21,225,131,177,155,210,204,49,219},{142,100,176,198,106,203,184,228,54,129,94,129,40,2,38,120,62,139,225,154,185,216,142,158,57,198,0,35,175,234,93,99},{187,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{235,186,239,56,182,44,14,17,102,15,179,67,4,210,222,220,170,66,38,31,99,128,42,116,66,179,244,2,140,166,210,86},{157,178,123,109,82,40,42,120,50,162,79,202,126,216,102,104,110,190,20,154,231,169,246,211,144,114,27,142,200,20,250,35},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{161,212,138,254,49,156,149,141,72,87,242,106,168,50,58,237,154,103,89,234,210,116,146,68,44,245,39,159,104,224,20,33},{40,153,216,66,113,162,64,33,183,140,57,141,57,13,88,119,6,3,198,156,21,92,128,251,54,129,30,222,79,79,205,67},{55,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{59,135,15,11,38,231,227,134,207,50,164,181,11,39,10,61,49,5,41,240,198,2,5,28,221,84,30,248,92,186,84,41},{12,66,50,83,211,120,90,80,245,15,9,139,48,119,242,219,207,149,28,160,239,31,35,229,14,170,73,147,102,150,241,19},{229,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{237,145,11,67,105,175,229,12,12,149,95,46,104,21,167,51,100,187,167,238,236,187,222,79,218,150,240,160,113,213,20,78},{250,176,24,214,34,169,116,83,56,218,188,106,149,78,239,37,82,119,243,135,233,223,60,41,148,27,59,253,102,207,59,48},{254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,63,0,0,0,0,0,0,0,0,0}},
{{221,61,245,135,66,122,110,194,96,255,179,52,153,223,58,74,255,136,24,114,116,206,5,128,147,126,18,172,192,216,138,45},{124,82,35,62,142,116,17,44,101,198,4,152,218,101,146,253,107,192,196,115,63,209,52,140,235,86,157,127,45,150,240,71},{255,255,255,255,255,255,7,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{38,244,64,69,27,15,213,88,71,231,189,205,81,86,166,4,86,124,151,254,251,104,29,64,64,131,117,9,32,185,237,3},{74,55,100,213,161,65,74,17,53,130,238,27,86,87,40,45,60,32,178,216,166,24,146,172,136,57,43,67,35,59,10,17},{1,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{125,21,184,4,246,39,171,187,7,138,114,129,55,142,17,141,116,151,97,250,137,56,128,48,41,230,164,131,208,233,137,121},{84,223,119,65,180,220,21,128,107,11,106,134,181,75,77,235,200,247,29,102,20,213,50,1,54,35,134,142,177,84,132,81},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,4,0,0}},
{{90,218,228,62,213,192,68,239,156,59,114,114,27,65,53,27,34,174,135,168,30,192,164,209,181,88,109,166,161,48,163,110},{170,1,253,195,12,17,236,110,121,251,124,233,232,179,157,14,241,144,4,179,78,126,136,114,67,235,243,106,110,117,145,114},{237,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,251,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{161,0,17,168,87,108,184,126,17,131,192,139,42,66,169,213,158,139,131,227,245,73,161,100,174,100,102,248,181,43,182,129},{110,207,20,141,35,220,35,36,182,87,100,25,218,4,20,231,53,105,186,35,0,107,180,150,21,31,110,90,171,144,206,5},{44,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{162,222,202,78,187,215,15,176,22,28,22,55,33,57,129,251,154,218,196,58,151,125,187,87,205,13,217,50,4,187,16,213},{103,86,244,163,233,69,89,222,51,193,138,240,150,125,233,118,184,64,136,62,47,46,176,193,137,208,74,69,240,19,255,30},{237,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{163,10,198,225,182,244,235,180,16,136,149,186,186,98,207,162,174,156,196,35,221,68,154,103,48,208,75,253,234,45,249,88},{238,24,106,137,162,199,154,166,113,212,106,229,124,58,103,251,126,167,171,208,192,174,199,117,22,84,126,200,135,152,178,10},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,3,0,0}},
{{86,157,92,251,35,104,236,13,47,222,68,214,127,202,59,33,102,57,166,3,230,227,26,18,111,97,29,160,0,234,170,189},{156,181,134,38,246,2,43,158,128,236,90,169,79,212,205,204,221,198,124,251,173,227,36,248,226,103,131,194,35,236,83,68},{1,0,0,0,0,0,0,0,0,8,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{62,33,62,225,176,153,110,65,245,5,69,110,45,134,202,41,10,196,46,14,230,204,160,21,96,92,76,170,105,103,93,215},{143,32,122,186,151,197,6,120,142,89,86,12,83,194,32,1,172,246,24,53,176,9,119,60,165,186,155,92,124,61,16,8},{45,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{255,119,129,97,9,145,219,222,124,121,133,129,179,185,168,171,16,222,142,248,142,199,44,72,196,138,73,153,166,170,1,62},{41,197,87,41,144,83,215,135,186,138,115,3,94,131,21,205,25,222,147,82,251,89,143,1,128,169,110,228,125,76,26,34},{237,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,127}},
{{156,214,83,177,174,225,5,75,58,175,148,11,89,181,158,117,5,59,115,47,36,20,84,40,255,150,223,68,220,143,33,114},{39,84,211,249,166,33,38,232,80,204,72,40,101,213,232,209,200,190,139,146,162,72,51,122,202,107,129,68,58,22,217,123},{254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,3}},
{{2,107,237,0,217,229,99,67,6,94,56,93,104,164,55,246,86,129,52,84,8,210,253,248,169,37,35,252,51,0,13,140},{99,199,143,188,201,105,213,227,235,76,53,155,211,85,189,14,172,11,201,69,94,30,66,185,45,154,84,177,231,36,144,12},{35,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{27,30,211,82,180,11,148,62,17,128,209,8,230,239,53,247,183,55,228,225,94,136,62,79,152,14,198,55,97,21,73,91},{169,29,209,129,8,196,58,203,4,145,195,146,144,150,221,40,71,66,59,90,155,206,207,183,210,8,55,61,94,65,226,67},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,63,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{17,84,214,46,105,13,70,0,141,94,216,85,12,72,178,97,10,218,121,21,178,62,130,121,250,225,103,71,74,36,181,128},{73,120,125,158,38,42,70,246,175,212,137,123,110,114,189,4,110,5,190,182,206,132,82,115,142,25,143,91,46,12,237,81},{49,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{158,201,240,167,204,109,115,51,89,175,136,63,204,90,54,129,239,137,183,198,43,112,68,1,148,14,66,23,6,143,160,67},{74,214,181,44,180,148,219,194,82,85,21,154,113,41,43,232,220,89,190,41,99,141,37,227,112,179,205,192,245,224,29,84},{219,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{103,208,41,209,33,20,250,22,156,88,212,36,40,93,70,102,167,146,56,150,129,175,170,10,211,200,219,100,63,45,194,5},{79,187,117,160,197,103,174,227,16,252,127,51,127,41,215,84,211,34,118,133,180,45,156,56,147,180,202,197,216,39,23,8},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0}},
{{167,154,181,76,173,248,226,77,157,11,50,161,112,104,153,59,174,168,160,21,62,201,232,149,194,181,39,245,66,247,120,135},{97,23,233,8,47,211,103,98,27,190,77,92,156,125,32,195,208,128,165,75,24,204,148,206,173,188,52,181,221,88,247,20},{216,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{142,109,110,218,73,110,35,192,177,154,190,39,52,200,84,168,2,158,142,228,155,88,75,183,255,234,182,200,125,22,12,225},{98,212,206,220,253,68,94,174,131,133,52,104,164,185,241,138,174,134,50,129,116,83,138,89,187,130,245,11,237,42,245,33},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,3}},
{{102,28,184,152,245,89,183,99,137,232,169,195,40,145,125,83,43,78,126,184,152,52,23,252,4,73,131,126,152,55,67,38},{179,160,74,2,175,127,233,133,65,242,23,37,248,169,39,223,172,251,111,46,181,81,81,4,124,13,148,131,136,204,229,48},{237,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127,255,255,255,255,255,255,255,255,255,127}},
{{207,203,191,72,211,69,98,185,212,151,99,158,180,7,170,164,52,123,14,37,222,177,53,11,92,214,41,211,31,137,213,213},{184,136,121,31,137,15,58,170,17,47,11,171,246,248,90,105,244,186,216,31,56,2,26,20,71,249,44,198,23,173,223,62},{43,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{242,245,10,183,156,85,86,228,133,188,82,131,145,214,152,160,31,251,226,109,155,187,221,187,124,58,120,179,59,148,237,207},{71,209,162,137,78,211,240,38,221,8,221,34,182,28,183,88,0,251,59,149,75,153,66,234,171,25,130,13,104,229,182,13},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,64,0,0,0,0,0,0,0,0,0}},
{{50,35,107,129,218,169,169,35,161,101,238,232,4,245,20,134,237,230,187,192,22,118,30,129,66,223,135,145,90,120,190,213},{181,170,51,67,19,74,224,56,196,66,166,193,15,142,83,234,35,194,173,60,107,92,12,238,255,237,205,250,153,152,253,45},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,4}},
{{76,145,26,208,28,90,255,205,148,205,29,4,69,140,143,211,169,156,188,175,33,14,133,149,215,147,71,204,73,125,144,228},{54,47,201,247,69,28,204,93,134,188,132,44,149,213,249,91,135,137,149,145,251,197,193,52,180,123,8,189,100,125,32,27},{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,0,0}},
{{132,75,16,182,15,59,210,174,38,130,193,244,85,210,125,177,21,109,148,164,39,101,221,58,255,145,200,21,247,34,250,7},{149,45,43,114,162,194,191,97,132,173,5,248,62,225,85,214,69,179,45,186,116,123,194,124,170,147,43,72,202,220,132,39},{0,0,0,0,0,0,248,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{136,121,183,10,64,101,18,34,221,73,26,163,43,83,87,92,121,216,162,245,93,206,219,26,235,13,106,96,195,96,248,213},{73,87,176,175,61,87,79,120,56,140,250,89,43,52,220,50,102,97,74,187,108,55,152,210,116,149,251,182,101,254,105,59},{34,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{119,11,142,115,66,164,251,142,84,240,255,12,100,88,181,160,9,190,210,4,152,96,80,160,1,180,12,136,227,1,64,174},{39,231,155,164,197,118,16,107,63,62,236,76,107,107,178,192,103,102,192,220,27,69,109,189,8,78,252,220,227,104,72,121},{54,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{143,118,155,62,111,100,66,125,123,238,135,67,52,53,217,0,18,148,250,116,52,232,53,204,77,212,242,17,170,81,142,191},{233,252,52,181,114,199,221,88,109,209,55,97,239,106,2,68,225,29,45,72,194,146,123,104,120,34,152,182,91,127,53,10},{255,255,255,7,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{241,159,184,238,241,181,194,128,129,254,217,229,252,218,2,137,159,129,137,23,224,217,199,168,99,74,167,134,1,173,232,16},{118,47,75,42,204,233,251,255,177,235,185,79,130,102,13,149,150,107,5,211,224,52,37,170,93,134,63,75,115,186,39,65},{180,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{38,6,232,190,234,40,158,188,38,201,78,121,70,193,143,64,94,246,40,207,178,39,15,19,178,54,156,216,188,159,251,67},{53,151,73,208,88,220,153,77,123,183,169,133,105,164,95,192,78,146,186,90,9,156,114,178,223,143,234,0,86,48,121,57},{227,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{23,233,26,60,115,179,181,186,220,36,166,193,215,34,137,52,217,133,17,59,12,104,101,189,44,246,97,166,121,198,201,249},{94,161,247,31,81,171,254,238,198,236,126,152,229,159,94,255,228,157,158,117,251,121,55,39,93,238,238,50,33,89,249,38},{255,255,255,255,255,255,255,255,255,255,255,255,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{164,216,216,117,95,109,115,126,121,188,116,216,209,123,239,97,127,57,165,19,241,104,160,122,219,87,20,233,247,188,6,175},{224,23,195,63,205,62,246,36,45,68,172,81,188,98,101,124,24,65,119,112,198,24,60,222,51,232,168,9,223,53,143,92},{254,255,255,3,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{168,191,141,73,47,39,88,196,189,164,247,11,95,2,242,157,36,182,254,161,92,29,140,164,68,36,195,50,111,49,213,19},{104,169,11,105,178,149,237,164,177,150,197,37,157,213,58,179,211,116,252,224,65,129,37,21,85,111,130,77,142,222,227,39},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,1,0,0,0}},
{{224,72,134,153,89,166,189,37,90,18,239,84,237,58,2,65,163,244,202,166,123,124,67,190,241,7,97,177,18,72,238,77},{40,232,158,133,143,110,51,1,223,28,50,126,113,23,61,55,34,62,181,154,167,108,169,11,109,50,16,215,127,116,96,111},{237,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,127}},
{{90,188,3,159,168,212,88,145,174,48,41,34,173,46,49,3,75,236,127,123,227,122,135,15,220,66,93,124,179,74,206,68},{135,72,99,81,101,23,32,21,10,53,51,217,250,107,42,14,75,245,253,65,140,39,228,202,54,71,86,77,30,22,148,31},{21,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{172,89,246,248,165,75,8,172,226,20,122,25,63,12,51,177,51,194,186,55,94,45,251,172,23,93,87,125,242,145,117,74},{6,213,68,9,50,224,155,194,252,224,224,158,80,196,88,36,12,71,187,6,62,94,68,252,153,240,36,194,61,106,184,124},{31,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{156,144,120,181,233,174,59,132,161,97,25,73,30,37,244,118,202,16,69,119,181,0,98,119,222,60,101,196,8,52,86,30},{89,14,57,40,39,248,19,97,59,237,48,144,254,99,252,197,157,115,125,163,161,138,12,177,168,244,110,120,208,37,130,101},{254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,0,0,0,0}},
};
static const uint8_t edges448[][3][56] = {
{{145,118,127,229,82,197,43,57,135,106,44,124,224,106,194,106,81,182,15,233,111,185,80,170,122,89,113,14,77,5,226,242,118,244,68,152,24,92,121,37,107,46,3,236,28,203,185,100,78,110,234,13,188,212,131,54},{54,21,170,123,159,62,168,47,98,90,129,92,36,41,37,246,219,46,63,107,1,67,59,136,105,129,207,207,58,245,170,50,56,143,227,121,175,16,39,153,146,103,43,71,46,190,97,170,194,115,93,113,178,132,38,247},{47,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{4,136,12,6,160,232,95,249,220,201,155,152,200,72,84,36,195,170,86,106,224,107,69,13,243,74,185,181,56,6,101,15,114,126,33,47,20,187,176,100,65,188,27,115,145,76,238,229,168,232,71,182,148,137,50,226},{42,88,28,199,93,84,60,18,225,100,92,68,222,18,240,249,21,88,79,249,62,9,176,205,41,104,131,128,11,27,235,40,67,143,138,31,152,121,125,227,217,250,13,92,86,253,182,100,188,163,229,201,251,159,157,172},{23,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{172,104,111,80,235,200,147,187,6,10,251,28,31,29,94,255,199,3,81,20,226,10,125,238,19,249,102,42,225,64,73,84,184,162,208,48,8,186,125,47,167,40,8,167,232,238,149,239,67,34,89,134,224,17,14,191},{251,69,28,249,202,158,184,155,218,205,130,65,193,135,38,12,239,180,223,158,175,101,92,114,98,153,70,10,79,121,7,28,213,41,230,13,194,185,5,182,250,157,40,49,64,236,27,7,36,54,41,96,141,189,155,131},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,0,0,0,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{203,171,181,119,77,47,42,8,88,231,211,79,69,19,24,170,227,83,178,185,160,51,237,96,251,6,209,214,37,214,182,95,131,214,39,252,97,32,234,84,29,110,67,113,119,175,84,43,219,165,228,27,203,34,188,0},{202,210,21,116,198,254,248,232,78,5,75,235,48,94,75,204,83,218,33,83,37,30,166,160,3,252,105,252,56,216,51,51,144,158,147,192,159,186,213,175,207,191,160,106,152,170,60,94,127,202,100,72,39,252,56,98},{249,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{51,171,7,20,228,100,161,71,203,225,172,20,121,187,249,89,151,31,145,107,186,158,156,244,234,172,154,226,132,88,171,31,247,36,166,143,99,122,218,246,209,10,65,194,118,83,24,53,238,45,80,97,115,13,76,91},{159,99,225,226,187,189,80,83,93,15,25,78,140,90,189,85,4,171,47,35,147,87,62,90,42,141,46,232,87,191,151,39,227,211,107,49,133,197,125,56,42,63,173,52,27,133,42,199,135,80,51,229,15,44,186,134},{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0}},
{{56,160,203,196,23,166,82,210,90,233,6,79,118,29,111,210,8,196,206,205,248,255,180,110,239,116,119,22,239,32,156,12,117,176,139,180,184,240,52,121,193,110,26,50,217,53,106,95,156,165,161,138,196,197,100,235},{25,154,247,0,34,227,57,58,196,101,63,67,0,91,107,193,71,117,145,133,232,102,153,89,116,104,242,46,137,19,111,79,173,17,19,43,116,144,195,65,210,193,79,84,153,100,10,176,122,136,111,55,195,71,7,58},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,15,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{124,212,67,114,18,42,106,49,27,100,196,82,206,105,63,93,152,253,192,188,121,91,161,229,56,21,123,121,156,144,192,7,247,155,180,161,14,79,42,105,107,200,125,63,116,187,211,207,58,194,26,160,174,90,68,196},{159,208,188,38,83,44,233,178,255,161,145,233,0,152,254,141,151,33,184,146,63,91,19,54,19,54,255,20,175,51,50,238,86,252,187,12,109,3,239,6,240,112,214,153,178,121,39,206,39,90,40,95,30,33,172,166},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{158,45,159,103,61,1,104,10,220,51,37,96,154,55,236,8,115,5,204,118,44,61,5,16,119,144,167,205,252,37,138,235,198,124,223,15,58,204,203,65,209,174,231,49,44,48,78,191,43,13,23,16,121,125,7,230},{104,128,122,12,248,143,244,192,32,62,248,71,185,84,79,95,6,43,19,20,114,50,16,221,104,81,242,173,89,63,72,193,89,6,236,220,193,252,213,47,238,109,236,178,10,255,174,22,26,50,151,210,174,57,251,241},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{85,171,9,155,210,66,205,86,19,226,235,92,247,105,182,69,77,167,192,85,73,37,43,245,34,198,41,244,94,77,242,157,112,108,40,11,63,188,29,67,167,141,22,191,164,112,117,183,17,36,136,176,42,18,5,81},{145,255,17,48,76,107,1,250,145,32,94,72,17,206,89,102,105,95,53,124,239,0,37,226,75,178,21,0,193,201,71,58,250,24,223,116,13,187,150,83,162,254,151,181,145,242,22,202,179,173,65,21,140,24,200,167},{49,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{12,54,154,236,150,181,143,70,183,202,34,76,60,45,247,0,112,242,184,184,6,111,114,193,144,39,119,152,178,24,157,234,40,160,63,206,7,132,76,162,253,4,77,242,127,215,120,241,201,154,185,16,239,175,53,6},{0,146,134,69,63,191,203,114,71,215,125,27,61,1,83,160,247,69,147,189,207,115,47,101,35,142,106,165,47,133,114,146,154,10,225,145,177,117,118,46,88,106,198,229,101,75,58,107,184,134,25,156,93,241,102,0},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{241,239,117,211,195,168,222,59,32,123,117,27,98,253,165,121,74,172,47,183,66,97,239,244,2,254,58,119,209,123,51,244,162,79,191,198,27,162,242,98,24,66,48,202,160,154,68,64,121,4,222,233,14,108,16,110},{173,141,113,40,235,168,50,229,152,74,219,234,156,232,75,24,203,199,15,36,13,150,13,118,54,38,255,248,42,195,215,195,209,120,35,54,157,99,98,42,151,112,236,248,142,26,144,188,203,30,67,78,201,217,85,163},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{214,191,150,208,86,77,84,126,153,26,249,33,118,236,151,237,14,73,29,127,18,27,213,46,162,128,58,2,8,30,117,205,151,179,89,238,254,140,13,189,144,9,166,77,157,22,160,210,226,29,46,177,233,213,214,197},{158,41,78,92,241,122,244,88,40,174,48,44,6,163,164,7,189,91,121,30,35,98,100,186,217,55,50,219,60,39,38,228,244,205,32,171,250,6,78,0,208,124,101,110,7,163,175,6,201,3,46,169,174,83,66,84},{242,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{88,152,188,38,98,3,117,155,244,213,115,60,49,176,234,83,93,97,122,220,249,242,205,81,160,193,245,117,50,193,162,92,20,72,169,200,30,114,65,200,139,232,128,152,128,81,58,20,158,225,10,131,137,6,131,50},{95,241,85,49,10,61,147,77,32,205,92,118,175,84,84,157,255,61,59,149,151,113,91,250,229,5,220,9,146,52,218,11,236,76,184,29,54,51,210,227,237,7,51,56,147,85,88,121,81,143,182,181,163,68,177,80},{254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{164,126,69,100,132,29,189,192,27,168,241,40,157,139,79,63,121,191,98,104,247,87,146,16,140,165,72,166,228,74,171,8,158,7,80,123,161,215,118,141,174,254,107,139,77,230,100,83,211,34,35,41,192,10,242,250},{179,194,15,122,168,26,157,40,157,192,130,225,53,40,230,148,35,109,42,158,132,147,2,3,212,200,81,115,76,16,35,16,134,73,232,123,133,203,60,197,126,213,5,26,47,255,63,109,37,20,46,96,182,251,145,248},{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{1,169,50,109,166,100,43,226,98,202,239,26,205,5,226,252,140,104,121,18,223,234,207,67,153,227,229,159,251,111,134,21,174,214,85,53,108,38,175,24,63,155,202,107,33,19,156,127,124,227,9,253,35,144,179,181},{163,73,214,79,237,41,243,77,171,11,139,134,22,99,78,35,54,55,115,78,55,0,128,195,209,217,106,211,134,184,138,44,53,161,216,201,155,9,216,34,119,181,168,128,186,38,13,63,131,17,65,193,125,118,130,34},{250,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{9,163,220,248,149,44,108,114,86,77,86,44,253,73,244,59,192,198,7,34,79,17,182,106,157,25,255,117,95,123,204,158,124,200,41,228,241,97,146,172,235,150,36,60,108,108,123,191,121,94,223,137,13,37,212,216},{220,198,186,191,85,142,36,113,176,230,7,18,207,127,188,42,140,44,177,0,187,64,63,7,7,5,43,121,82,12,70,121,194,222,220,34,200,161,99,251,64,226,136,101,138,129,220,110,183,204,122,208,98,66,110,43},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,16,0,0,0,0,0,0,0,0,0,0}},
{{219,150,28,198,124,197,23,170,167,245,114,194,255,166,4,31,18,188,157,199,113,85,67,215,183,144,62,75,147,78,53,75,74,142,134,71,220,82,31,145,79,192,133,68,184,7,123,95,214,216,9,65,181,252,241,188},{203,10,56,178,145,144,52,67,118,17,172,143,233,196,242,21,116,63,224,6,183,115,97,168,156,210,128,49,195,53,68,56,7,53,36,121,223,184,209,146,131,210,242,8,112,251,111,5,18,103,223,2,102,230,0,224},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,0,0,0,0,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{98,81,165,66,54,31,254,50,61,95,124,112,234,131,87,63,8,108,140,47,44,159,206,62,189,253,73,60,160,31,64,39,111,210,6,72,104,210,88,226,49,100,86,232,55,53,10,148,50,41,49,48,193,225,138,83},{101,20,237,103,84,185,68,191,30,56,210,194,35,151,183,146,61,41,154,159,106,249,94,59,210,146,210,81,132,149,223,147,201,136,3,74,16,5,186,191,26,169,107,218,203,41,190,76,107,167,96,72,138,208,108,80},{35,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{70,0,151,16,52,209,100,101,50,97,108,64,188,30,17,254,86,135,246,62,251,4,224,129,153,43,188,134,19,200,59,59,150,217,78,166,3,29,246,206,64,38,189,25,178,104,64,167,205,45,195,118,19,69,175,253},{85,219,96,109,126,23,164,57,58,104,159,7,133,28,96,215,184,64,185,255,55,124,179,65,39,11,16,157,23,233,241,255,79,239,111,139,29,32,215,139,157,81,81,54,21,65,217,137,185,119,32,183,239,195,184,12},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,240,255,255,255,255,255,255,255,255,255,255}},
{{66,89,122,9,55,117,50,26,246,100,38,1,89,13,138,121,24,210,0,226,11,183,176,209,26,66,42,59,161,179,46,215,40,154,195,114,58,132,20,234,85,91,182,95,162,39,85,10,216,89,123,224,69,114,46,75},{114,66,51,140,203,217,139,163,106,141,82,31,157,214,29,69,113,21,112,45,231,112,57,243,100,255,225,2,178,178,166,36,63,219,76,147,192,180,78,92,72,238,28,51,182,13,152,177,18,0,78,63,162,242,24,46},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{203,218,158,59,54,251,132,30,115,111,230,12,53,222,135,48,231,237,185,153,245,62,20,249,45,229,242,211,193,47,76,149,44,147,180,49,224,221,31,238,61,215,58,19,235,235,74,95,159,70,62,131,71,133,186,221},{98,189,17,140,159,64,12,60,134,215,179,250,2,86,184,117,54,160,4,190,11,107,107,37,198,12,118,6,201,114,216,88,62,232,23,24,175,162,246,80,97,192,156,59,162,191,155,110,213,188,222,165,216,217,15,49},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{56,157,129,45,38,32,249,114,25,249,96,154,115,247,139,66,67,72,102,198,140,88,28,199,56,108,45,170,37,136,25,242,129,119,159,1,246,102,20,27,189,102,48,163,28,24,157,152,138,76,175,181,46,233,180,158},{201,62,217,44,85,17,193,108,118,174,76,11,150,136,232,177,18,150,73,238,121,103,44,237,14,149,86,193,73,143,191,90,100,51,43,177,240,78,132,10,252,119,20,60,251,222,3,183,107,153,133,176,22,141,7,237},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{63,234,133,89,72,156,183,55,124,158,150,9,22,175,99,94,77,83,11,87,109,202,48,36,124,127,78,11,170,204,55,52,13,186,247,255,198,5,66,65,146,213,201,9,92,207,115,153,193,82,115,187,64,16,210,166},{220,196,255,221,125,139,51,118,173,17,108,168,206,220,121,138,92,22,10,223,67,148,125,199,71,179,212,226,183,64,49,7,248,177,116,112,15,126,238,14,138,106,151,232,3,251,196,20,11,162,193,137,214,79,193,164},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{31,247,248,233,220,194,20,52,100,11,147,208,251,201,233,2,233,11,159,209,10,155,198,83,170,227,179,104,196,92,166,173,13,228,46,95,78,171,101,47,146,194,250,158,64,15,236,79,112,136,243,19,34,136,18,52},{64,187,141,249,150,207,105,172,230,44,176,243,224,206,55,203,14,36,209,82,22,153,227,123,245,201,53,186,15,114,233,158,150,202,109,58,219,160,36,233,47,140,127,157,232,234,40,51,248,239,111,93,130,99,176,14},{254,255,255,15,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{176,49,14,8,227,139,151,203,144,75,225,126,131,170,76,140,243,29,199,123,141,136,50,16,18,213,125,104,117,140,244,25,148,108,188,203,72,42,50,101,239,162,253,169,135,209,213,140,1,187,144,39,146,109,161,163},{57,75,251,179,69,6,253,236,205,168,61,79,194,169,197,167,233,237,30,142,249,226,167,156,83,59,177,53,59,20,105,139,6,173,207,104,212,85,22,88,10,133,247,83,173,227,228,219,149,63,80,57,85,214,190,89},{255,255,255,15,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{200,9,180,136,222,198,85,23,8,213,46,167,6,139,231,41,253,100,212,101,204,30,6,178,44,49,107,69,35,237,231,104,209,54,253,252,72,109,134,72,110,168,245,170,128,152,190,78,49,234,247,106,30,47,4,244},{59,125,212,139,35,55,15,103,200,165,187,172,114,116,110,106,90,23,9,178,203,175,102,121,215,185,84,179,214,205,15,96,93,23,228,106,166,1,234,209,228,198,240,100,179,213,252,210,171,97,15,179,32,31,76,253},{228,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{84,249,37,13,197,242,246,79,69,113,206,190,111,117,7,145,215,211,57,226,223,66,112,91,15,38,1,106,51,42,156,106,99,158,169,4,6,64,63,221,84,0,68,196,230,130,34,255,160,74,94,205,166,198,32,93},{180,119,21,98,246,185,142,143,72,208,144,5,63,215,19,115,20,252,121,189,0,40,125,149,58,225,150,119,116,8,161,132,245,7,117,109,129,134,102,249,136,129,48,215,158,150,128,168,130,112,4,14,204,170,152,31},{201,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{33,134,252,164,163,205,123,50,88,244,6,100,30,73,96,186,248,86,172,103,11,136,35,52,66,22,38,241,248,32,129,1,13,99,37,111,24,67,209,230,55,196,20,40,226,49,123,108,49,233,16,29,254,172,3,210},{67,138,166,115,5,40,159,146,220,249,108,47,115,103,82,198,200,11,37,62,60,147,165,40,233,154,239,114,209,36,195,154,36,24,230,5,226,111,56,246,187,140,51,225,250,229,24,57,209,123,161,213,81,76,149,210},{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,16,0,0,0,255,255,255,255,255,255,255,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{10,57,42,23,195,225,253,103,148,106,234,147,253,170,1,226,173,193,94,93,124,243,253,117,47,230,230,197,141,133,156,41,90,12,70,33,155,47,204,3,238,232,59,13,158,61,50,141,181,171,122,36,114,187,2,164},{255,251,101,12,75,77,41,225,219,93,69,29,174,104,223,148,20,61,198,149,195,71,175,52,226,223,69,215,47,53,230,240,214,216,179,167,10,228,135,236,124,177,47,32,127,243,42,222,20,145,167,52,243,137,35,100},{230,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{196,179,116,206,13,75,232,232,209,98,143,101,50,190,202,22,157,63,167,146,13,37,72,159,4,201,94,237,139,155,239,94,163,88,188,188,212,125,36,129,117,151,243,43,192,214,88,37,96,235,18,89,139,5,134,72},{165,155,148,103,43,9,83,64,31,127,22,90,62,223,181,99,238,2,67,44,14,117,224,4,11,195,39,105,137,43,40,76,45,77,102,56,145,229,245,11,75,234,225,236,185,194,117,5,42,212,86,138,49,150,234,77},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{140,176,108,41,29,171,106,133,16,31,250,43,237,141,237,236,149,64,45,17,18,217,217,27,206,112,60,98,86,10,146,125,168,8,233,192,194,67,8,206,60,0,202,202,191,48,133,247,81,117,1,206,111,252,132,50},{125,142,146,79,27,191,198,91,119,205,119,62,253,24,244,27,127,60,166,229,246,92,99,243,39,252,101,13,107,122,17,106,123,47,12,177,61,248,64,29,232,147,95,129,56,248,119,159,94,161,104,0,72,31,195,194},{1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{237,168,54,77,86,40,108,32,154,201,88,214,243,104,109,241,49,164,34,11,187,107,189,249,199,43,173,233,84,158,148,123,63,198,132,80,74,244,169,13,130,154,142,155,122,85,25,237,192,254,232,162,82,25,77,99},{53,244,27,114,107,149,117,127,223,229,95,156,167,166,169,206,196,51,186,75,219,8,168,132,159,62,198,0,46,76,135,164,217,144,120,68,218,212,76,80,78,36,198,20,49,19,209,189,4,11,240,161,86,71,1,219},{33,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{59,100,23,22,117,4,123,231,104,247,89,182,255,203,206,158,247,245,46,176,229,21,22,211,7,147,33,228,134,219,7,41,50,77,236,163,90,221,43,201,68,82,73,219,171,233,217,56,210,85,253,158,185,76,140,103},{16,120,228,253,135,197,221,131,44,17,169,31,87,125,126,15,151,84,42,113,8,0,210,107,20,134,230,251,39,20,40,128,43,174,81,255,40,185,78,82,8,147,52,245,165,114,43,179,218,24,240,217,217,206,74,7},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,239,255,255,255,255,255,255,255,255,255,255}},
{{249,226,94,157,227,123,170,216,43,117,52,50,62,165,69,212,163,151,19,121,96,212,214,46,146,215,191,144,144,209,215,55,240,172,173,10,240,185,85,102,50,192,68,240,171,154,148,132,93,0,15,40,163,15,50,98},{23,27,68,87,234,238,40,118,104,137,107,100,244,228,99,231,16,119,191,79,19,102,207,34,124,12,226,181,146,139,143,45,207,237,3,112,162,28,170,72,182,4,95,213,247,224,92,56,147,140,216,66,7,86,57,51},{255,255,255,255,255,255,255,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{160,8,245,91,232,164,128,31,142,122,67,38,114,64,63,63,77,74,127,248,97,233,145,185,196,107,206,208,110,32,181,229,134,243,77,49,70,119,133,10,95,208,68,226,119,186,245,143,167,24,173,215,22,251,232,193},{32,13,149,209,169,182,134,226,133,41,47,123,17,9,161,20,56,177,222,173,94,87,189,126,178,80,94,236,254,66,43,221,76,33,31,144,159,108,96,121,148,229,251,238,239,52,60,33,53,13,106,91,107,79,63,37},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{78,205,24,172,115,205,194,9,148,66,251,170,237,141,148,214,120,244,254,82,180,158,35,30,123,83,204,99,190,32,122,153,64,243,170,116,96,50,208,140,230,177,88,217,31,218,133,160,203,167,48,199,212,12,100,78},{71,79,53,39,216,169,131,221,17,151,229,28,63,78,150,151,138,225,136,194,40,220,152,25,170,222,101,191,134,47,60,89,8,100,2,215,101,166,158,115,138,39,227,220,157,226,11,47,83,212,184,52,245,103,232,94},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,240,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{151,176,38,166,99,212,137,107,255,244,230,78,208,227,38,149,133,109,207,63,64,73,253,108,170,102,163,99,98,234,169,168,35,52,17,94,38,202,96,114,151,131,234,128,52,224,55,112,242,120,195,45,58,236,251,5},{20,130,31,95,155,164,95,162,166,116,42,194,216,115,210,150,103,168,96,114,39,154,107,249,202,216,205,208,103,239,222,172,247,11,82,123,114,235,13,228,20,247,208,196,77,168,24,134,179,47,128,229,135,27,119,123},{25,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{19,232,229,0,183,178,111,158,191,131,115,252,15,250,79,125,225,35,28,119,157,103,57,60,169,184,98,114,62,2,121,195,164,242,90,158,55,111,172,199,136,8,168,209,49,110,82,117,184,210,39,214,102,60,248,45},{237,213,158,60,105,81,131,107,186,163,172,220,107,157,147,90,170,236,217,69,246,175,27,81,57,173,225,18,87,53,227,22,72,133,67,125,32,87,206,207,126,224,94,214,56,173,96,202,230,143,54,133,158,8,134,97},{2,0,0,16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{17,218,126,207,222,222,36,121,11,214,124,102,126,86,105,27,223,209,46,17,23,124,226,32,112,147,203,91,151,188,59,110,52,107,134,93,52,131,122,23,127,90,98,205,5,194,36,113,167,143,28,129,110,237,153,130},{68,244,247,69,166,48,180,142,53,96,156,37,169,97,37,71,15,10,243,216,95,53,236,153,51,47,115,112,157,122,22,198,54,250,218,192,14,72,147,127,217,229,198,222,85,64,106,14,96,67,4,53,82,137,177,206},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{205,109,55,168,84,177,111,10,58,37,104,10,98,137,237,162,43,112,89,33,106,191,13,21,238,114,16,236,51,92,197,187,82,86,80,80,145,40,19,199,214,180,107,184,157,119,240,130,185,199,120,20,101,78,228,13},{191,138,209,212,107,0,168,116,0,82,160,253,62,90,210,211,156,42,254,190,50,81,47,159,15,109,226,37,192,75,55,12,140,122,72,224,214,250,140,24,146,177,22,224,100,241,63,79,112,25,79,162,122,120,248,16},{255,255,255,255,255,255,255,255,255,255,239,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{83,238,134,192,214,42,1,129,49,9,22,229,238,154,187,96,198,86,26,167,117,21,108,243,118,34,196,200,60,17,221,34,220,135,158,6,117,242,104,219,212,82,254,16,128,254,1,255,49,55,55,157,240,225,105,187},{96,245,214,112,133,158,54,206,132,140,12,14,74,98,18,148,164,161,15,98,178,255,175,221,190,101,238,107,126,102,107,27,247,170,59,66,132,237,131,52,116,116,19,223,114,121,55,63,35,61,43,198,2,224,58,29},{1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{84,237,74,177,17,38,163,208,69,246,13,28,68,205,150,49,210,174,177,33,47,136,82,251,99,231,188,226,173,48,235,125,190,155,178,73,230,79,230,244,5,93,157,207,99,173,129,234,251,137,131,203,147,191,68,42},{143,8,246,147,127,20,126,194,173,151,252,9,149,97,65,207,71,164,196,26,181,149,131,240,217,235,87,95,248,89,63,34,38,70,132,20,165,16,154,201,211,141,10,136,92,77,20,188,129,3,209,102,177,225,165,132},{227,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{138,121,166,175,22,95,211,201,12,167,152,184,8,184,58,238,220,195,155,56,131,171,197,16,86,218,65,213,127,105,212,89,146,25,70,156,83,255,148,193,88,138,145,64,215,251,164,40,248,28,231,82,251,118,131,229},{89,29,41,94,77,55,95,198,245,20,112,221,75,238,105,43,206,89,178,165,193,7,173,34,24,162,170,234,195,146,139,85,125,247,188,36,109,146,248,233,247,7,91,140,176,32,118,55,228,167,55,199,70,127,141,110},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{55,106,16,157,25,234,101,70,233,39,178,231,147,232,204,208,31,209,214,116,108,39,193,36,188,184,16,65,175,90,145,128,190,47,222,246,20,20,127,235,132,84,232,122,168,173,84,53,248,244,133,151,148,75,75,67},{123,170,153,12,127,61,143,8,58,120,113,0,198,235,6,95,7,63,76,247,9,115,3,163,250,68,136,122,100,226,161,190,38,110,113,139,200,117,190,30,20,52,179,230,149,27,195,50,211,43,150,169,46,218,73,11},{215,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{242,104,169,157,69,172,137,129,65,49,198,60,116,16,175,81,2,227,76,95,33,228,109,9,111,223,237,50,115,222,157,46,20,131,73,103,136,83,70,41,54,94,246,162,37,40,184,239,209,254,55,71,101,129,255,173},{193,146,159,6,48,238,172,254,91,198,66,55,203,172,2,111,226,151,157,252,209,185,93,79,5,187,127,34,183,201,28,39,193,245,184,86,193,224,64,190,19,28,136,235,183,71,15,220,108,250,15,161,202,168,75,160},{0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,255,255,255,255,255,255,255,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{147,75,236,83,22,203,57,229,6,164,120,96,169,173,50,43,28,166,200,202,19,50,237,200,173,215,171,67,35,204,117,29,6,16,173,196,217,88,221,135,204,47,111,12,215,199,229,162,107,211,184,219,1,124,26,92},{226,57,119,61,90,248,155,225,25,220,251,119,247,94,141,9,97,117,112,129,40,136,202,57,127,34,28,223,118,20,16,83,154,7,169,46,197,107,127,239,23,7,133,21,248,95,54,95,236,75,40,61,109,9,21,127},{197,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{186,237,85,247,238,201,121,223,72,86,250,115,220,72,32,142,109,233,125,133,45,190,125,148,78,134,80,176,62,207,237,225,51,225,102,229,108,164,199,26,119,36,133,64,254,69,50,254,246,183,35,137,133,3,57,161},{41,36,24,24,186,249,137,81,209,140,71,61,252,65,19,206,47,155,91,22,207,199,55,250,71,159,109,201,22,157,121,197,146,59,196,56,33,6,68,122,74,110,175,208,254,42,41,58,14,199,233,56,61,70,46,44},{22,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{252,24,74,219,229,252,237,100,150,135,232,188,22,36,52,204,4,105,24,95,30,237,198,67,117,123,48,96,14,75,145,253,43,37,115,94,9,230,205,147,130,16,109,37,94,111,57,92,1,51,177,84,233,100,191,195},{7,58,25,2,32,128,172,105,21,94,91,196,184,230,112,81,242,154,213,40,128,154,200,35,155,112,235,18,185,213,197,211,154,42,170,224,158,235,212,58,42,57,16,160,224,176,166,93,29,33,103,79,2,151,228,255},{254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{164,174,213,20,113,94,57,113,85,97,228,58,151,226,63,45,152,32,137,157,49,57,92,190,56,44,62,245,59,212,92,12,81,200,223,75,78,1,224,209,202,146,31,132,194,94,239,64,70,232,96,79,89,23,165,163},{205,58,5,70,23,230,250,135,130,224,99,43,24,87,6,121,75,89,223,89,71,98,4,70,173,64,246,186,199,35,150,69,154,217,233,32,44,240,144,151,218,229,174,83,161,53,25,124,157,33,109,180,24,77,245,225},{1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,16,0,0,0}},
{{49,249,72,247,152,10,235,251,11,193,203,222,249,152,251,149,243,128,175,237,129,37,232,169,229,25,78,229,169,192,9,80,247,109,168,187,100,95,117,0,3,62,67,191,15,171,166,8,105,60,189,56,220,196,60,38},{91,191,76,31,153,179,136,136,124,36,195,67,222,118,161,238,2,169,243,11,25,107,81,191,4,157,232,38,216,204,113,86,204,112,244,48,184,243,19,144,170,63,136,35,22,167,59,35,70,90,163,167,98,205,133,60},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,239,255,255,255}},
{{188,29,125,74,88,150,181,157,86,128,40,160,94,208,166,110,114,136,237,106,75,221,62,131,119,151,53,93,61,69,66,229,102,18,59,12,81,71,204,33,11,108,7,125,10,176,45,58,213,18,206,156,49,29,50,167},{101,58,236,210,217,238,240,242,68,254,64,102,75,29,203,205,123,146,174,242,27,226,0,224,189,20,47,63,4,63,151,30,226,107,249,158,163,117,99,166,214,70,103,86,210,218,207,248,244,179,65,242,97,16,244,42},{50,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{159,95,171,11,37,196,180,5,181,179,236,13,184,104,171,0,65,218,46,145,202,211,222,90,39,211,193,77,60,149,58,27,28,37,233,133,176,72,110,91,23,163,187,136,25,9,105,57,240,254,201,105,230,54,102,149},{8,88,145,70,109,174,236,85,48,151,219,105,150,9,54,81,246,16,89,160,32,118,205,20,93,204,4,205,4,168,106,117,215,127,15,246,22,157,34,215,16,82,91,239,171,211,96,35,166,255,163,202,116,185,167,33},{1,0,0,240,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{62,126,24,77,37,181,206,150,231,233,59,34,91,109,69,52,206,139,193,93,246,216,185,159,169,184,22,212,80,42,147,121,169,139,155,40,9,228,126,34,98,216,156,3,8,108,196,239,52,73,47,205,230,204,91,62},{81,98,192,247,13,227,160,245,135,114,158,149,115,120,198,33,82,189,105,195,215,85,166,18,205,78,251,45,222,173,165,128,131,182,33,156,141,113,47,122,130,73,35,30,199,109,100,222,81,200,41,93,50,32,93,21},{1,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{239,236,28,181,209,97,57,38,226,27,107,115,186,167,134,24,138,150,76,16,162,188,97,163,162,130,10,37,185,146,12,223,23,104,92,170,105,98,59,200,42,0,15,69,109,98,230,102,1,22,195,207,196,56,165,67},{222,59,91,18,121,117,136,15,116,181,214,114,177,23,120,249,226,42,249,11,47,227,119,166,24,160,50,219,85,129,177,100,199,193,136,19,52,189,119,16,104,207,147,52,103,206,5,137,147,48,116,11,119,104,249,32},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{131,47,150,247,158,103,241,2,140,146,94,14,63,69,27,165,135,60,37,210,147,239,244,143,125,115,134,228,105,103,175,89,115,217,63,152,109,79,70,165,16,198,22,148,179,224,153,113,90,231,20,154,114,135,233,239},{212,150,204,242,255,10,226,109,221,142,158,92,0,123,235,80,59,199,108,69,60,75,238,69,114,127,55,56,90,154,105,136,45,158,248,206,25,140,108,244,0,223,98,248,160,167,196,212,50,19,38,153,186,128,17,8},{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,16,0,0,0}},
{{66,73,128,132,84,31,200,187,209,134,43,126,36,128,157,63,71,240,67,42,244,0,76,231,211,47,26,0,221,182,67,11,49,85,192,15,20,46,18,136,95,41,117,6,153,224,238,103,110,70,135,47,239,220,215,60},{171,117,28,87,23,87,137,95,93,157,104,17,196,228,188,201,179,132,186,61,95,28,11,82,172,186,25,180,222,83,156,167,3,240,176,181,7,78,202,182,84,22,228,135,93,207,114,92,45,32,5,90,251,156,249,51},{1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{178,107,194,40,18,240,241,14,219,235,103,233,222,43,100,199,51,229,219,26,42,96,41,3,187,242,213,156,121,73,9,141,241,9,36,168,66,44,224,240,248,130,127,50,128,148,107,36,27,13,198,105,1,161,19,51},{103,105,91,80,118,223,135,187,139,7,252,61,95,106,21,157,3,130,161,214,89,108,154,195,253,141,136,65,233,242,121,65,130,27,1,168,106,250,245,252,74,49,193,187,249,188,170,250,70,119,155,113,37,26,236,74},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{230,143,172,132,64,83,171,155,197,146,135,164,171,91,199,129,197,229,200,165,231,237,61,164,230,118,77,106,99,185,57,208,153,154,249,156,50,44,181,44,181,9,50,130,238,176,51,79,226,11,83,16,90,62,222,76},{162,205,87,108,158,163,226,238,220,175,164,3,37,81,179,91,207,141,135,17,229,73,238,151,133,158,154,229,171,160,89,73,171,224,44,236,116,195,160,154,59,53,229,13,145,104,58,23,153,5,210,94,236,31,16,156},{2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0}},
{{43,42,63,160,36,228,105,12,226,205,122,254,178,153,172,227,115,31,108,185,242,254,112,200,103,79,89,122,28,93,36,183,152,255,212,137,66,29,160,1,50,103,10,96,1,186,44,216,210,32,200,111,180,154,196,190},{248,15,147,43,222,226,90,11,213,56,235,188,226,68,230,188,176,186,242,213,207,91,143,36,64,230,139,204,77,100,45,33,107,129,19,223,104,124,255,65,225,35,43,72,44,43,79,142,214,130,176,164,23,13,80,50},{5,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{81,218,137,233,186,164,27,119,23,62,154,20,228,166,227,189,151,229,208,167,38,52,214,115,254,120,230,44,64,193,215,57,90,221,33,255,165,189,243,26,249,220,236,66,180,203,119,59,141,122,222,164,180,242,239,9},{96,135,15,187,252,251,218,123,30,69,132,72,240,167,89,58,19,252,246,251,89,188,92,249,213,172,37,58,41,108,165,185,208,173,20,77,103,112,243,247,72,193,103,232,144,54,58,104,117,81,166,221,145,205,190,4},{1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0}},
{{33,101,142,31,91,97,228,85,47,135,42,228,19,84,233,191,72,122,216,236,139,173,242,177,157,168,94,241,102,196,103,216,86,136,103,67,5,240,48,182,151,203,114,13,48,197,23,68,50,28,200,162,198,8,197,141},{214,30,144,56,205,24,232,43,79,10,213,243,18,191,244,1,222,100,74,202,4,46,182,96,248,12,21,111,63,217,169,193,148,148,112,122,196,210,109,210,232,185,225,116,246,191,13,27,214,103,240,57,171,113,73,231},{52,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{85,86,226,173,168,38,161,111,116,62,140,175,42,220,215,201,22,140,210,234,46,92,243,133,155,229,205,248,113,116,234,67,14,142,173,75,9,82,90,164,133,206,182,237,220,119,19,247,210,216,232,228,234,4,141,55},{194,75,220,69,60,240,159,30,165,51,134,140,2,188,44,45,247,202,241,61,236,254,173,126,151,14,79,243,179,252,104,52,56,104,0,36,102,81,48,176,56,103,172,159,12,60,94,96,219,128,37,128,84,233,243,64},{211,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
{{104,40,222,21,96,164,74,225,200,214,230,129,132,246,229,3,254,4,118,43,0,133,167,66,170,149,154,231,150,168,113,60,211,38,123,215,21,213,110,190,35,39,233,51,170,184,215,241,37,111,192,40,68,198,3,191},{92,7,134,245,238,2,7,31,254,141,97,203,144,200,97,234,171,165,153,141,193,100,164,232,245,159,122,10,57,47,91,196,13,255,11,108,247,163,2,114,235,150,100,170,228,41,180,12,105,5,206,245,196,112,174,19},{0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{210,182,58,234,23,216,173,83,21,200,34,49,228,122,82,225,70,80,130,99,213,24,28,84,20,69,234,153,2,25,58,61,186,144,35,97,243,102,86,232,251,242,23,218,166,75,117,161,60,21,243,235,230,39,94,177},{13,64,122,204,193,230,220,160,197,112,88,230,255,226,250,81,111,222,160,147,251,139,83,61,2,27,244,152,160,92,14,59,51,15,132,132,215,210,80,251,206,143,132,62,0,120,208,123,191,27,168,192,116,107,91,205},{1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{54,29,78,251,242,235,76,170,11,230,109,215,101,159,160,250,55,159,78,137,131,176,48,120,97,51,222,120,81,81,247,214,145,153,214,135,119,27,151,178,78,59,162,1,138,156,134,219,149,205,201,6,215,65,237,111},{43,65,198,15,72,232,15,234,144,75,45,222,179,242,230,205,113,186,23,22,32,167,13,111,169,94,188,76,146,68,128,139,154,113,200,121,251,222,72,200,1,61,143,251,14,45,212,24,34,230,173,164,138,211,39,195},{254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{83,135,168,244,30,234,128,185,253,46,220,59,90,213,1,146,232,139,127,226,35,194,200,78,24,43,9,202,36,105,67,54,241,121,61,100,239,40,100,159,117,86,216,149,195,218,234,19,48,63,177,144,0,132,41,233},{210,107,91,217,76,231,106,60,243,82,57,138,24,118,162,144,96,6,43,31,60,211,72,200,141,255,45,89,61,109,12,159,151,11,82,97,168,252,161,214,62,151,47,110,74,250,162,146,179,13,169,39,128,13,198,157},{1,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{77,113,234,43,61,44,4,37,216,6,109,8,227,21,227,6,193,5,165,28,63,70,79,27,241,94,57,159,92,151,207,237,77,118,108,41,100,252,72,88,110,106,55,250,252,186,79,36,67,175,99,179,139,5,91,7},{241,141,83,179,69,200,74,255,207,195,15,112,162,64,49,234,244,46,195,240,41,189,255,24,204,49,155,207,128,220,54,43,153,54,36,107,81,114,0,206,4,169,35,38,184,52,195,165,148,173,87,138,240,196,83,207},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,1,0,0,0,0,0,0,0}},
{{107,22,231,7,180,137,169,10,109,83,110,35,214,226,79,177,231,88,191,164,88,214,69,162,155,222,234,10,40,25,111,178,207,39,93,17,153,245,157,188,167,208,243,11,20,254,213,16,134,115,67,219,176,57,41,151},{39,6,114,149,30,148,211,80,20,97,252,92,140,173,255,72,134,103,180,148,132,244,2,80,130,1,178,50,230,99,12,208,105,74,170,142,216,86,77,217,187,73,191,49,119,168,135,170,110,69,77,119,96,42,199,205},{48,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}},
{{21,69,3,195,234,46,8,93,188,31,6,51,245,183,75,209,28,175,94,244,21,231,206,209,114,73,173,136,173,240,42,228,211,157,6,170,201,254,225,16,248,249,52,225,78,162,39,222,129,79,122,193,143,177,22,234},{245,122,228,90,111,102,28,46,113,18,155,188,132,121,166,225,190,125,40,180,82,210,90,17,222,104,161,66,79,49,90,7,118,16,77,85,204,64,184,201,70,215,109,150,211,117,195,73,97,83,200,111,224,238,144,208},{255,255,255,239,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}},
};

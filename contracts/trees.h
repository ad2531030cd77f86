// generated by tools/gentrees.py
#define NT 61
static const int T_COL[NT] = {0, 1, 2, 0, 0, 0, 1, 1, 1, 2, 2, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 0, 0, 0, 0};
static const int T_ORD[NT] = {1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 4, 4, 4, 4};
static const int T_MASK[NT] = {1, 2, 4, 1, 3, 5, 3, 2, 6, 5, 6, 4, 1, 3, 5, 3, 3, 7, 5, 7, 5, 1, 3, 5, 3, 7, 5, 3, 3, 7, 3, 2, 6, 7, 6, 6, 3, 3, 7, 2, 6, 6, 5, 7, 5, 7, 6, 6, 5, 6, 4, 5, 7, 5, 6, 6, 4, 1, 1, 1, 1};
static const int T_NCH[NT] = {0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 1, 1, 2, 3};
static const int T_CH[NT][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {3, 0, 0}, {4, 0, 0}, {5, 0, 0}, {6, 0, 0}, {7, 0, 0}, {8, 0, 0}, {9, 0, 0}, {10, 0, 0}, {11, 0, 0}, {0, 0, 0}, {0, 1, 0}, {0, 2, 0}, {1, 1, 0}, {1, 2, 0}, {2, 2, 0}, {3, 0, 0}, {4, 0, 0}, {5, 0, 0}, {6, 0, 0}, {7, 0, 0}, {8, 0, 0}, {9, 0, 0}, {10, 0, 0}, {11, 0, 0}, {0, 0, 0}, {0, 1, 0}, {0, 2, 0}, {1, 1, 0}, {1, 2, 0}, {2, 2, 0}, {3, 0, 0}, {4, 0, 0}, {5, 0, 0}, {6, 0, 0}, {7, 0, 0}, {8, 0, 0}, {9, 0, 0}, {10, 0, 0}, {11, 0, 0}, {0, 0, 0}, {0, 1, 0}, {0, 2, 0}, {1, 1, 0}, {1, 2, 0}, {2, 2, 0}, {12, 0, 0}, {21, 0, 0}, {0, 3, 0}, {0, 0, 0}};
static const double T_MF[NT] = {1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 2.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 2.0, 1.0 / 1.0, 1.0 / 2.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 2.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 2.0, 1.0 / 1.0, 1.0 / 2.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 2.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 2.0, 1.0 / 1.0, 1.0 / 2.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 6.0};
static const double T_EXACT[NT] = {1.0 / 1.0, 1.0 / 1.0, 1.0 / 1.0, 1.0 / 2.0, 1.0 / 2.0, 1.0 / 2.0, 1.0 / 2.0, 1.0 / 2.0, 1.0 / 2.0, 1.0 / 2.0, 1.0 / 2.0, 1.0 / 2.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 3.0, 1.0 / 3.0, 1.0 / 6.0, 1.0 / 3.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 3.0, 1.0 / 3.0, 1.0 / 6.0, 1.0 / 3.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 6.0, 1.0 / 3.0, 1.0 / 3.0, 1.0 / 6.0, 1.0 / 3.0, 1.0 / 6.0, 1.0 / 24.0, 1.0 / 24.0, 1.0 / 8.0, 1.0 / 24.0};

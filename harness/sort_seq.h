static const signed char SEQ[64][4] = {{0,-1,-1,-1},{1,-1,-1,-1},{2,-1,-1,-1},{3,-1,-1,-1},{0,1,-1,-1},{0,2,-1,-1},{0,3,-1,-1},{1,0,-1,-1},{1,2,-1,-1},{1,3,-1,-1},{2,0,-1,-1},{2,1,-1,-1},{2,3,-1,-1},{3,0,-1,-1},{3,1,-1,-1},{3,2,-1,-1},{0,1,2,-1},{0,1,3,-1},{0,2,1,-1},{0,2,3,-1},{0,3,1,-1},{0,3,2,-1},{1,0,2,-1},{1,0,3,-1},{1,2,0,-1},{1,2,3,-1},{1,3,0,-1},{1,3,2,-1},{2,0,1,-1},{2,0,3,-1},{2,1,0,-1},{2,1,3,-1},{2,3,0,-1},{2,3,1,-1},{3,0,1,-1},{3,0,2,-1},{3,1,0,-1},{3,1,2,-1},{3,2,0,-1},{3,2,1,-1},{0,1,2,3},{0,1,3,2},{0,2,1,3},{0,2,3,1},{0,3,1,2},{0,3,2,1},{1,0,2,3},{1,0,3,2},{1,2,0,3},{1,2,3,0},{1,3,0,2},{1,3,2,0},{2,0,1,3},{2,0,3,1},{2,1,0,3},{2,1,3,0},{2,3,0,1},{2,3,1,0},{3,0,1,2},{3,0,2,1},{3,1,0,2},{3,1,2,0},{3,2,0,1},{3,2,1,0}};
#define NSEQ 64
#define SORT_SWITCH(s) switch (s) { \
  case 0: sarray_sort(struct rec, A, n, a,0, buf); break; \
  case 1: sarray_sort(struct rec, A, n, b,1, buf); break; \
  case 2: sarray_sort(struct rec, A, n, f,2, buf); break; \
  case 3: sarray_sort(struct rec, A, n, d,3, buf); break; \
  case 4: sarray_sort_2(struct rec, A, n, a,0, b,1, buf); break; \
  case 5: sarray_sort_2(struct rec, A, n, a,0, f,2, buf); break; \
  case 6: sarray_sort_2(struct rec, A, n, a,0, d,3, buf); break; \
  case 7: sarray_sort_2(struct rec, A, n, b,1, a,0, buf); break; \
  case 8: sarray_sort_2(struct rec, A, n, b,1, f,2, buf); break; \
  case 9: sarray_sort_2(struct rec, A, n, b,1, d,3, buf); break; \
  case 10: sarray_sort_2(struct rec, A, n, f,2, a,0, buf); break; \
  case 11: sarray_sort_2(struct rec, A, n, f,2, b,1, buf); break; \
  case 12: sarray_sort_2(struct rec, A, n, f,2, d,3, buf); break; \
  case 13: sarray_sort_2(struct rec, A, n, d,3, a,0, buf); break; \
  case 14: sarray_sort_2(struct rec, A, n, d,3, b,1, buf); break; \
  case 15: sarray_sort_2(struct rec, A, n, d,3, f,2, buf); break; \
  case 16: sarray_sort_3(struct rec, A, n, a,0, b,1, f,2, buf); break; \
  case 17: sarray_sort_3(struct rec, A, n, a,0, b,1, d,3, buf); break; \
  case 18: sarray_sort_3(struct rec, A, n, a,0, f,2, b,1, buf); break; \
  case 19: sarray_sort_3(struct rec, A, n, a,0, f,2, d,3, buf); break; \
  case 20: sarray_sort_3(struct rec, A, n, a,0, d,3, b,1, buf); break; \
  case 21: sarray_sort_3(struct rec, A, n, a,0, d,3, f,2, buf); break; \
  case 22: sarray_sort_3(struct rec, A, n, b,1, a,0, f,2, buf); break; \
  case 23: sarray_sort_3(struct rec, A, n, b,1, a,0, d,3, buf); break; \
  case 24: sarray_sort_3(struct rec, A, n, b,1, f,2, a,0, buf); break; \
  case 25: sarray_sort_3(struct rec, A, n, b,1, f,2, d,3, buf); break; \
  case 26: sarray_sort_3(struct rec, A, n, b,1, d,3, a,0, buf); break; \
  case 27: sarray_sort_3(struct rec, A, n, b,1, d,3, f,2, buf); break; \
  case 28: sarray_sort_3(struct rec, A, n, f,2, a,0, b,1, buf); break; \
  case 29: sarray_sort_3(struct rec, A, n, f,2, a,0, d,3, buf); break; \
  case 30: sarray_sort_3(struct rec, A, n, f,2, b,1, a,0, buf); break; \
  case 31: sarray_sort_3(struct rec, A, n, f,2, b,1, d,3, buf); break; \
  case 32: sarray_sort_3(struct rec, A, n, f,2, d,3, a,0, buf); break; \
  case 33: sarray_sort_3(struct rec, A, n, f,2, d,3, b,1, buf); break; \
  case 34: sarray_sort_3(struct rec, A, n, d,3, a,0, b,1, buf); break; \
  case 35: sarray_sort_3(struct rec, A, n, d,3, a,0, f,2, buf); break; \
  case 36: sarray_sort_3(struct rec, A, n, d,3, b,1, a,0, buf); break; \
  case 37: sarray_sort_3(struct rec, A, n, d,3, b,1, f,2, buf); break; \
  case 38: sarray_sort_3(struct rec, A, n, d,3, f,2, a,0, buf); break; \
  case 39: sarray_sort_3(struct rec, A, n, d,3, f,2, b,1, buf); break; \
  case 40: sarray_sort_4(struct rec, A, n, a,0, b,1, f,2, d,3, buf); break; \
  case 41: sarray_sort_4(struct rec, A, n, a,0, b,1, d,3, f,2, buf); break; \
  case 42: sarray_sort_4(struct rec, A, n, a,0, f,2, b,1, d,3, buf); break; \
  case 43: sarray_sort_4(struct rec, A, n, a,0, f,2, d,3, b,1, buf); break; \
  case 44: sarray_sort_4(struct rec, A, n, a,0, d,3, b,1, f,2, buf); break; \
  case 45: sarray_sort_4(struct rec, A, n, a,0, d,3, f,2, b,1, buf); break; \
  case 46: sarray_sort_4(struct rec, A, n, b,1, a,0, f,2, d,3, buf); break; \
  case 47: sarray_sort_4(struct rec, A, n, b,1, a,0, d,3, f,2, buf); break; \
  case 48: sarray_sort_4(struct rec, A, n, b,1, f,2, a,0, d,3, buf); break; \
  case 49: sarray_sort_4(struct rec, A, n, b,1, f,2, d,3, a,0, buf); break; \
  case 50: sarray_sort_4(struct rec, A, n, b,1, d,3, a,0, f,2, buf); break; \
  case 51: sarray_sort_4(struct rec, A, n, b,1, d,3, f,2, a,0, buf); break; \
  case 52: sarray_sort_4(struct rec, A, n, f,2, a,0, b,1, d,3, buf); break; \
  case 53: sarray_sort_4(struct rec, A, n, f,2, a,0, d,3, b,1, buf); break; \
  case 54: sarray_sort_4(struct rec, A, n, f,2, b,1, a,0, d,3, buf); break; \
  case 55: sarray_sort_4(struct rec, A, n, f,2, b,1, d,3, a,0, buf); break; \
  case 56: sarray_sort_4(struct rec, A, n, f,2, d,3, a,0, b,1, buf); break; \
  case 57: sarray_sort_4(struct rec, A, n, f,2, d,3, b,1, a,0, buf); break; \
  case 58: sarray_sort_4(struct rec, A, n, d,3, a,0, b,1, f,2, buf); break; \
  case 59: sarray_sort_4(struct rec, A, n, d,3, a,0, f,2, b,1, buf); break; \
  case 60: sarray_sort_4(struct rec, A, n, d,3, b,1, a,0, f,2, buf); break; \
  case 61: sarray_sort_4(struct rec, A, n, d,3, b,1, f,2, a,0, buf); break; \
  case 62: sarray_sort_4(struct rec, A, n, d,3, f,2, a,0, b,1, buf); break; \
  case 63: sarray_sort_4(struct rec, A, n, d,3, f,2, b,1, a,0, buf); break; \
  }

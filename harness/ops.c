/* Compiled with verificarlo: one function per floating point operation, so the
 * driver reaches the backends through the real pass and the real wrapper. */
#define NI __attribute__((noinline))
#define BIN(T, N, OP) NI T op_##T##_##N(T a, T b) { return a OP b; }
BIN(float, add, +) BIN(float, sub, -) BIN(float, mul, *) BIN(float, div, /)
BIN(double, add, +) BIN(double, sub, -) BIN(double, mul, *) BIN(double, div, /)

NI float op_cast(double a) { return (float)a; }
NI float op_float_fma(float a, float b, float c) { return __builtin_fmaf(a, b, c); }
NI double op_double_fma(double a, double b, double c) { return __builtin_fma(a, b, c); }

#define CMPS(T) \
  NI int op_##T##_oeq(T a, T b) { return a == b; } \
  NI int op_##T##_une(T a, T b) { return a != b; } \
  NI int op_##T##_olt(T a, T b) { return a < b; } \
  NI int op_##T##_ole(T a, T b) { return a <= b; } \
  NI int op_##T##_ogt(T a, T b) { return a > b; } \
  NI int op_##T##_oge(T a, T b) { return a >= b; } \
  NI int op_##T##_uno(T a, T b) { return __builtin_isunordered(a, b); } \
  NI int op_##T##_one(T a, T b) { return __builtin_islessgreater(a, b); }
CMPS(float) CMPS(double)

#define VEC(T, n) \
  typedef T T##n __attribute__((ext_vector_type(n))); \
  NI void vop_##T##n##_add(T##n *a, T##n *b, T##n *r) { *r = *a + *b; } \
  NI void vop_##T##n##_sub(T##n *a, T##n *b, T##n *r) { *r = *a - *b; } \
  NI void vop_##T##n##_mul(T##n *a, T##n *b, T##n *r) { *r = *a * *b; } \
  NI void vop_##T##n##_div(T##n *a, T##n *b, T##n *r) { *r = *a / *b; }
VEC(float, 2) VEC(float, 4) VEC(float, 8) VEC(float, 16)
VEC(double, 2) VEC(double, 4) VEC(double, 8) VEC(double, 16)

/* -include'd: hides the vector units from the code that follows */
#include <x86intrin.h>
#undef __SSE2__
#undef __AVX__
#undef __AVX2__
#undef __AVX512F__

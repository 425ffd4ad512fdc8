/* declarations of Apple's <simd/simd.h> that cglm's applesimd.h uses (types only) */
#ifndef cgv_apple_simd_h
#define cgv_apple_simd_h
typedef float simd_float2 __attribute__((ext_vector_type(2)));
typedef float simd_float3 __attribute__((ext_vector_type(3)));
typedef float simd_float4 __attribute__((ext_vector_type(4)));
typedef struct { simd_float3 columns[3]; } simd_float3x3;
typedef struct { simd_float4 columns[4]; } simd_float4x4;
#endif

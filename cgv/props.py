"""The properties, what each check runs, and what it trusts."""
import os, json, re
from . import build, wrap
from .contract import REG

ALL = [c for c in build.CONFIGS if c not in build.EXTRA]
INP = 'every value of every argument (real-valued reading of the floats), every permitted aliasing of output with input, every build configuration (portable C, SSE, SSE2, SSE3, SSE4.1, AVX, AVX+FMA, unaligned storage, 64-bit and 32-bit NEON, WASM SIMD, the four clip-space conventions, fast-math, the other documented switches)'
WHY = 'The tests run one configuration (the host SSE build) on one or a few fixed or random samples per function, mostly with distinct output storage; they cannot reach every input, every aliasing or the other instruction sets. '

def prop(title, statement, files, mech, over=('inputs', 'configurations'), text=None, why='', api=True, extra=(), note=''):
    return dict(title=title, statement=statement, files=files, mech=mech, over=list(over), text=text or 'For ' + INP + '.', why=WHY + why, api=api, extra=extra, note=note)

H = lambda *n: ['include/cglm/%s.h' % x for x in n]
PROPS = {
'C01': prop('Scalar helpers and interpolation compute their defining formula',
    'Scalar utilities (sign, degree/radian conversion, min, max, clamp, percentage) and the scalar and per-component vector forms of linear, step, smooth and smoothstep interpolation return exactly their documented formula for every input, including inputs outside the nominal range and on the boundaries. Clamped variants never leave the range of their bounds; unclamped variants extrapolate. The result is the same through the inline, linked and struct interfaces.',
    H('util', 'vec2', 'vec3', 'vec4'), [('scalar interpolation and clamping', 'include/cglm/util.h'), ('component-wise lerp/step/smoothstep', 'include/cglm/vec3.h')], why='Boundary inputs (t outside [0,1], equal edges) are sampled at most once.'),
'C02': prop('Vector arithmetic is component-wise and complete',
    'Every 2-, 3- and 4-component floating-point vector operation (arithmetic, fused accumulate forms, dot product, norms, distance, min/max, clamp, abs, sign, floor, fract, remainder, square root, swizzle, copy and fill) writes exactly the defining result to every component, and nothing else, whatever the inputs. The result does not depend on whether the output storage is also an input.',
    H('vec2', 'vec3', 'vec4', 'vec2-ext', 'vec3-ext', 'vec4-ext', 'simd/x86', 'simd/arm', 'simd/wasm'), [('vector functions', 'include/cglm/vec4.h'), ('SIMD kernels', 'include/cglm/simd/x86.h')], why='Accumulating forms are tested with the same accumulator contents; SIMD lanes other than those of the host are never run.'),
'C03': prop('Geometric vector operations: normalise, cross, reflect, refract, rotate',
    'Normalisation yields the vector divided by its length, and the zero vector when the length is below machine epsilon; cross product, angle, projection, reflection, refraction (with total internal reflection giving zero), face-forward, orthogonal vector and axis or matrix rotation of vectors follow their geometric definition for every input. Degenerate inputs (zero, parallel, antiparallel) take the documented result and never an indeterminate one.',
    H('vec2', 'vec3', 'vec4', 'vec2-ext', 'vec3-ext', 'vec4-ext'), [('normalisation threshold', 'include/cglm/vec3.h'), ('reflection and refraction', 'include/cglm/vec3.h')], why='Degenerate and near-degenerate vectors are a measure-zero set that random samples miss.'),
'C04': prop('Integer vector operations are exact 32-bit arithmetic',
    'Every integer-vector operation gives, in each component, the exact two\'s-complement 32-bit result of its definition for all argument values, including negative values and both ends of the range wherever the operation is defined. Conversions from other vectors keep the documented components; no other storage changes.',
    H('ivec2', 'ivec3', 'ivec4'), [('integer vectors', 'include/cglm/ivec3.h')], over=('inputs', 'configurations'), text='For every 32-bit value of every component (bit-precise), every permitted aliasing, every build configuration.', why='Sign and overflow corners are 2^-32 events.'),
'C05': prop('Equality tests and IEEE classification of vectors',
    'Vector comparison functions return true exactly when every component satisfies the comparison (exact, within tolerance, or all components equal), and the NaN, infinity and validity tests classify every IEEE-754 bit pattern correctly (bit-precise, including signed zeros, denormals and NaNs). Under the declared fast-math configuration the classifiers are constant, as documented.',
    H('vec2', 'vec3', 'vec4', 'vec2-ext', 'vec3-ext', 'vec4-ext', 'util'), [('comparison and classification', 'include/cglm/vec3-ext.h')], text='For every bit pattern of every component, every build configuration.', why='One differing component in a wide comparison, or one NaN lane, is easily missed by samples that change all components together.'),
'C06': prop('Matrix algebra: product, transpose, trace, scaling, copies, sub-blocks',
    'For all square and rectangular sizes, matrix product, matrix-vector product, transpose, scaling, trace, quadratic form, row/column swap, sub-block pick and insert, copy, identity and construction from an array equal their column-major linear-algebra definition in every entry. In-place use gives the same result wherever the interface permits it.',
    H('mat2', 'mat3', 'mat4', 'mat2x3', 'mat2x4', 'mat3x2', 'mat3x4', 'mat4x2', 'mat4x3', 'affine-mat', 'simd/sse2/mat2', 'simd/sse2/mat3', 'simd/sse2/mat4', 'simd/avx/mat4', 'simd/neon/mat4', 'simd/wasm/mat4'), [('matrix kernels', 'include/cglm/simd/sse2/mat4.h')], why='A wrong lane in one SIMD kernel only shows under that instruction set.'),
'C07': prop('Determinant and inverse',
    'The determinant is the exact polynomial of the entries and the computed inverse is the adjugate divided by the determinant, so that matrix times inverse is the identity for every invertible matrix; the rigid-body inverse inverts every rotation-plus-translation. This holds in every SIMD variant and in place.',
    H('mat2', 'mat3', 'mat4', 'affine-mat', 'simd/sse2/mat4', 'simd/neon/mat4', 'simd/wasm/mat4', 'simd/sse2/affine'), [('cofactor expansion', 'include/cglm/mat4.h')], why='A sign error in one cofactor term needs the right combination of non-zero entries.'),
'C08': prop('3D affine transforms compose as documented',
    'Translate, scale and rotate (about an axis, an axis angle, a pivot) build exactly the homogeneous matrix of the transform; the default forms apply the new transform in the local frame (right multiplication) and the "-ed" forms in the parent frame (left multiplication). Rotation matrices are orthonormal with determinant one and leave their axis fixed; pivoted rotation leaves the pivot fixed.',
    H('affine', 'affine-pre', 'affine-post'), [('pre/post transforms', 'include/cglm/affine-pre.h')], why='Tests mostly start from the identity matrix, where left and right multiplication agree.'),
'C09': prop('Affine decomposition inverts composition',
    'Decomposing an affine matrix returns its translation, the column lengths as scale (negated when the handedness is flipped) and the rotation part with unit columns, so that recomposing gives the matrix back; uniform-scale detection is true exactly when the scales agree.',
    H('affine'), [('decomposition', 'include/cglm/affine.h')], why='Mirrored matrices and their sign rule are barely sampled.'),
'C10': prop('2D affine transforms compose as documented',
    'Translate, scale and rotate on 3x3 homogeneous 2D transforms build exactly the transform matrix; default forms apply in the local frame, "-ed" forms in the parent frame, and each "make" form equals applying the operation to the identity.',
    H('affine2d', 'affine2d-post'), [('2D affine', 'include/cglm/affine2d.h')], why='Tests mostly start from simple matrices.'),
'C11': prop('Quaternion algebra',
    'Quaternion product, conjugate, inverse, norm, normalisation (identity for non-positive norm), sum, difference, dot product, and construction from and extraction of axis and angle follow the quaternion-algebra definition for all components. The product is the Hamilton product in the documented order, including in place.',
    H('quat', 'simd/sse2/quat', 'simd/neon/quat', 'simd/wasm/quat'), [('Hamilton product', 'include/cglm/simd/sse2/quat.h')], why='SIMD sign masks of other instruction sets are never run.'),
'C12': prop('Quaternions and rotation matrices agree',
    'The matrix of a quaternion represents the same rotation as rotating a vector by that quaternion (scaled norms included), the transposed form is its transpose, and conversion from a rotation matrix selects a numerically valid branch for every rotation and returns a quaternion of that rotation. Rotating a transform by a quaternion (also about a pivot) equals multiplying by its matrix, and the rotation between two vectors maps the first direction to the second.',
    H('quat', 'mat3', 'mat4'), [('branch selection by largest diagonal', 'include/cglm/mat4.h'), ('matrix from quaternion', 'include/cglm/quat.h')], why='Three of the four conversion branches need rotations near a half turn.'),
'C13': prop('Quaternion interpolation and orientation',
    'Linear, normalised-linear and spherical interpolation return the documented blend for every parameter, take the short arc (or the long one where that is the contract), hit both end points (up to the sign of the quaternion), and fall back to linear interpolation only when the quaternions are nearly parallel. Look-at and orientation quaternions match the corresponding view rotation.',
    H('quat'), [('short-arc sign flip', 'include/cglm/quat.h')], why='Sign-flip and fallback branches combine.'),
'C14': prop('Euler angles: six orders, matrices, quaternions and back',
    'For each of the six rotation orders, the Euler-angle matrix is the product of the three axis rotations in that order, the right-handed quaternion represents the same rotation and the left-handed one the same with the z angle reversed, and order dispatch selects the matching order. Extracting angles from a rotation matrix gives angles that rebuild it, also at the gimbal-lock poles.',
    H('euler', 'handed/euler_to_quat_rh', 'handed/euler_to_quat_lh'), [('per-order formulas', 'include/cglm/euler.h')], why='Six orders times two representations times handedness; poles are measure zero.'),
'C15': prop('Projection matrices for all four clip-space conventions',
    'Perspective, frustum and orthographic builders (also from bounding boxes and defaults) produce exactly the projection that maps the view volume to the clip volume of their convention: left or right handed, depth -1..1 or 0..1. The near plane maps to the near depth value, the far plane to the far one, and off-centre volumes keep their centre.',
    H('cam', 'clipspace/persp_rh_no', 'clipspace/persp_lh_no', 'clipspace/persp_rh_zo', 'clipspace/persp_lh_zo', 'clipspace/ortho_rh_no', 'clipspace/ortho_lh_no', 'clipspace/ortho_rh_zo', 'clipspace/ortho_lh_zo'), [('per-convention builders', 'include/cglm/clipspace/persp_rh_no.h')], why='Tests use symmetric volumes and the host convention.'),
'C16': prop('Projection parameters can be recovered and edited',
    'Decomposing a perspective or frustum matrix returns the six planes it was built from, with near, far, sizes, field of view and aspect ratio each consistent with them, in each convention; resizing changes only the aspect ratio and moving the far plane changes only the far plane.',
    H('cam', 'clipspace/persp_rh_no', 'clipspace/persp_lh_no', 'clipspace/persp_rh_zo', 'clipspace/persp_lh_zo', 'clipspace/persp'), [('per-convention decomposition', 'include/cglm/clipspace/persp_lh_zo.h')], why='Off-centre frusta and the non-default conventions are barely sampled.'),
'C17': prop('View matrices and look directions',
    'Look-at and look-direction matrices are the rigid transform that takes the eye to the origin and the viewing direction to the depth axis of the convention, with orthonormal rows and the up vector in the vertical plane; the any-up form accepts every viewing direction.',
    H('cam', 'clipspace/view_rh', 'clipspace/view_lh', 'clipspace/view_rh_no', 'clipspace/view_lh_no', 'clipspace/view_rh_zo', 'clipspace/view_lh_zo'), [('view builders', 'include/cglm/clipspace/view_rh.h')], why='Axis-aligned sample directions hide sign errors.'),
'C18': prop('Project, unproject and picking',
    'Projecting an object position gives its window coordinates for the viewport and depth convention, unprojecting is its exact inverse for every invertible matrix, and the pick matrix maps the pick rectangle to the whole clip volume.',
    H('project', 'clipspace/project_no', 'clipspace/project_zo'), [('viewport mapping', 'include/cglm/clipspace/project_no.h')], why='Only one or two viewports with origin zero are sampled.'),
'C19': prop('Frustum planes, corners and boxes',
    'The six planes extracted from a view-projection matrix are the normalised clip planes in the documented order, and corners, centre, slice corners and bounding box computed from its inverse are those of the view volume.',
    H('frustum', 'plane'), [('plane extraction', 'include/cglm/frustum.h')], why='Order and sign of each plane for every matrix.'),
'C20': prop('3D bounding boxes',
    'Bounding-box transform, merge, crop, size, radius, centre, validity and the overlap tests against points, boxes, spheres and frusta return the result of their set-theoretic definition for all boxes, including touching and contained configurations; boundaries count as the documentation says.',
    H('box'), [('overlap tests', 'include/cglm/box.h')], why='Touching and one-axis-only separations are measure-zero or rare.'),
'C21': prop('2D bounding boxes',
    'Two-dimensional bounding-box transform, merge, crop, size, radius, centre, validity and the overlap tests against points, boxes and circles return the result of their set-theoretic definition for all boxes, including touching and contained configurations.',
    H('aabb2d'), [('overlap tests', 'include/cglm/aabb2d.h')], why='Touching and one-axis-only separations are measure-zero or rare.'),
'C22': prop('Bounding spheres',
    'Sphere radius, transform, overlap with spheres and points follow their definition for every input, and merging two spheres gives a sphere centred midway between them that contains both, also when one contains the other or the centres coincide (its radius is the centre distance plus both radii).',
    H('sphere'), [('merge', 'include/cglm/sphere.h')], why='Containment and coincidence are corner cases.'),
'C23': prop('Ray intersection',
    'A ray-triangle or ray-sphere test reports a hit exactly when the ray meets the shape in front of its origin (within the documented epsilon), and then returns the true distances; the point at a parameter is origin plus parameter times direction.',
    H('ray'), [('Moller-Trumbore and quadratic root selection', 'include/cglm/ray.h')], why='Grazing rays, rays starting inside, and shapes behind the origin.'),
'C24': prop('Curves',
    'Cubic Bezier and Hermite evaluation equal their defining cubic polynomial for every parameter, so they start and end at the given points with the given tangents, and the matrix form equals the explicit form.',
    H('bezier', 'curve'), [('cubic evaluation', 'include/cglm/bezier.h')], why='Polynomial identity over all control values.'),
'C25': prop('Easing functions',
    'Every easing function equals its defining formula over the whole unit interval, starts at 0 and ends at 1, is continuous where its two halves meet, and each in/out/in-out family is consistent under reversal.',
    H('ease'), [('piecewise formulas', 'include/cglm/ease.h')], why='Piece boundaries are single points; most easing functions have no test at all.'),
'C26': prop('Gradient noise',
    'The 2D, 3D and 4D noise functions equal the reference classic gradient-noise formula for every position: every corner of the cell contributes its own hashed gradient, and the blend is the quintic fade.',
    H('noise'), [('corner gradients and fade', 'include/cglm/noise.h')], why='Each hash corner only matters in part of the cell.', over=('inputs', 'configurations')),
'C27': prop('Results do not depend on output aliasing an input',
    'Wherever an output parameter may legally be the same object as an input (all matrix, quaternion and vector operations whose types match), calling the function in place writes the same result as calling it with separate storage. Every input that is not also an output keeps its value.',
    ['include/cglm'], [('temporaries before the first store', 'include/cglm/mat4.h')], text='For every function with an output of the same type as an input, every such pairing of output and inputs, every value, every build configuration.', why='Only a few functions are tested in place.', api=False),
'C28': prop('Memory safety: bounds, frame, alignment, defined values',
    'No call reads or writes outside the objects its parameter types describe, writes to an input-only parameter, assumes more alignment than the type of the build configuration guarantees, or returns or branches on an indeterminate value. This holds for every input, in every build configuration, including the one that declares nothing is aligned.',
    ['include/cglm', 'src'], [('aligned and unaligned SIMD loads', 'include/cglm/simd/intrin.h'), ('alignment attributes', 'include/cglm/types.h')], text='For every function under contract, every input value, every permitted aliasing, every build configuration; buffers have exactly the size and alignment of the declared type.', why='Test buffers are larger and more aligned than the declared type, so an overlong or over-aligned access passes.', api=False),
'C29': prop('The linked interface does what the inline one does',
    'Every function of the compiled (call) interface leaves exactly the result that the inline function of the same name leaves, for every input: same argument order, same outputs, same return value, nothing else written.',
    ['src', 'include/cglm/call'], [('call wrappers', 'src/mat4.c')], text='For every function of the linked interface, every argument value, every permitted aliasing, every build configuration.', why='The tests reach many wrappers, not all, and compare with samples.', api=False),
'C30': prop('The struct interface does what the inline one does',
    'Every function of the struct-by-value interface returns exactly the result that the inline function of the same name computes, for every input: same argument roles, full result, no indeterminate component. The documented naming options (no namespace, another namespace, a name suffix) rename every function that carries the type name, and change nothing else.',
    ['include/cglm/struct'], [('struct wrappers', 'include/cglm/struct/mat4.h')], text='For every function of the struct interface, every argument value, every build configuration.', why='Most struct wrappers have no test.', api=False),
'C31': prop('SIMD builds compute what the portable build computes',
    'Every function gives the same mathematical result in every SIMD configuration as in the portable C configuration, for every input; the choice of instruction set changes rounding only.',
    ['include/cglm/simd', 'include/cglm'], [('SIMD kernels', 'include/cglm/simd/sse2/mat4.h'), ('NEON kernels', 'include/cglm/simd/neon/mat4.h'), ('WASM kernels', 'include/cglm/simd/wasm/mat4.h')], over=('configurations', 'inputs'), text='For every function and every pair (SIMD configuration, portable configuration), every argument value and permitted aliasing.', why='Tests run the host instruction set only.', api=False),
'C32': prop('Convention switches select the matching variant everywhere',
    'With each combination of the handedness and depth-range switches, every unsuffixed projection, view, project, Euler-quaternion and related function behaves exactly as the variant of that convention, in the inline, linked and struct interfaces alike.',
    H('cam', 'project', 'euler', 'clipspace/persp', 'struct/cam', 'struct/project') + ['src/cam.c', 'src/project.c'], [('configuration dispatch', 'include/cglm/cam.h')], over=('configurations', 'inputs'), text='For each of the four conventions, each unsuffixed function, each interface, every argument value.', why='Tests run one convention.', api=False),
'C33': prop('Array operations treat every element, whatever the count',
    'Functions over arrays of caller-supplied length treat exactly the elements 0 to count-1, each one correctly: identity-array functions make every matrix (or quaternion) the identity, struct pack and unpack copy every component of every element between the two layouts, and the chained product of two or more matrices is the ordered product of all of them. Nothing outside the arrays is touched, a count of zero is a no-op where allowed, and inputs keep their value. This holds through the inline, linked and struct interfaces.',
    H('mat2', 'mat3', 'mat4', 'quat', 'struct/vec2', 'struct/vec3', 'struct/vec4', 'struct/ivec2', 'struct/ivec3', 'struct/ivec4', 'struct/mat4'), [('identity arrays and chained product', 'include/cglm/mat4.h'), ('pack and unpack', 'include/cglm/struct/vec3.h')],
    text='For every element count, every element value, every build configuration: loop invariants, no bound on the number of iterations.', why='Tests use one fixed small count per function.', api=False),
'C34': prop('Solving a Bezier curve for its parameter',
    'The de Casteljau solver for a one-dimensional cubic Bezier curve terminates for every input and returns a parameter in [0,1]: 0 when the sought value is at or below the first end point, 1 when it is at or above the last one, and otherwise a parameter where the curve has the sought value within the documented tolerance (or, when the iteration limit ends the search, the middle of a bracket of the value that has been halved at least 64 times).',
    H('bezier'), [('subdivision loop', 'include/cglm/bezier.h')], text='For every value and all control values (also non-monotone curves), every build configuration: loop invariant, no bound on the number of iterations.', why='The tests sample a few curves; which half is kept and how the control points are updated matters at every step.', api=False),
'C35': prop('Print helpers show the value they are given',
    'The print helpers write every component of the vector, matrix, quaternion or box they are given to the given stream, in order (matrices row by row, each column padded to its widest element), each number in the configured format, framed by the documented heading; they write nothing else, and nothing at all when printing is disabled. The library and struct forms write the same text.',
    H('io', 'struct/io', 'call/io') + ['src/io.c'], [('printf-based printers', 'include/cglm/io.h')], over=('inputs', 'configurations'), text='For every value of every component (integers bit-precise), enabled with the default and with other format settings, and disabled; every interface.', why='Output text is not compared by any test.', api=False),
'C36': prop('Constants, initialisers, struct members, masks and aliases mean what they say',
    'Every public named constant is the correctly rounded value of the quantity it names; zero, one, identity, axis, curve-basis and clip-corner initialisers (array and struct form) have exactly the documented entries; the named members of every struct type denote the component of that name in the storage shared with the array type, which has the same size and alignment (none beyond that of float under CGLM_ALL_UNALIGNED); swizzle masks select the components they name; the conversions to the Apple simd types keep every component in its place; and every alternative (older or synonymous) name behaves exactly as the function it stands for, in the inline, linked and struct interfaces.',
    H('types', 'types-struct', 'common', 'applesimd', 'vec2', 'vec3', 'vec4', 'ivec2', 'ivec3', 'ivec4', 'mat2', 'mat3', 'mat4', 'quat', 'frustum', 'bezier', 'curve', 'struct/vec3', 'struct/vec4', 'struct/mat4', 'struct/quat', 'call/vec3', 'call/vec4'), [('constants and masks', 'include/cglm/types.h'), ('struct unions', 'include/cglm/types-struct.h'), ('synonyms', 'include/cglm/vec3.h')],
    over=('inputs', 'configurations'), text='For every value of every component, every build configuration.', why='Most constants, members and synonyms are never used by the tests, which mostly read the raw arrays.', api=False),
'C37': prop('SIMD helpers compute the operation they name on every instruction set',
    'The SIMD helper functions and macros (prefix glmm_) offered for user code compute the operation they name, the same one under every instruction set that provides them: load, store (all four or exactly three components, from storage aligned as the array type is), broadcast, lane splat and shuffle, absolute value, minimum, maximum, division, the four fused forms a*b+c, a*b-c, c-a*b and -(a*b)-c (128 and 256 bit), and across the lanes of one register the sum, minimum, maximum, dot product and the 1-, 2- and infinity-norms (in the scalar form, in the first lane, or in every lane for the broadcasting forms).',
    H('simd/x86', 'simd/arm', 'simd/wasm', 'simd/intrin'), [('x86 helpers', 'include/cglm/simd/x86.h'), ('NEON helpers', 'include/cglm/simd/arm.h'), ('WASM helpers', 'include/cglm/simd/wasm.h')],
    over=('inputs', 'configurations'), text='For every register value, every SIMD build configuration.', why='No test calls them; several are used by no library function, and those of other instruction sets are never compiled.', api=False),
}

TRUSTED = [
 'clang 18 as the front end that turns /repo\'s C into LLVM IR (no optimisation passes); the compilers used by others are assumed to agree with it',
 'cgv: the IR reader, symbolic executor, normaliser and obligation generator in /verif/cgv (Python)',
 'z3 4.x (SMT obligations), exact rational arithmetic of Python',
 'semantics of the SSE/AVX/NEON/WASM intrinsics as encoded in cgv/exe.py (clang lowers most to generic IR; the rest are modelled)',
 'libm: sqrtf, sinf, cosf, tanf, acosf, asinf, atan2f, powf, expf, fmodf, floorf ... are uninterpreted or axiomatised real functions',
]
ASSUME = [
 'floating-point arithmetic is read as exact real arithmetic (rounding, overflow, denormals and signed zeros are outside the postconditions), except in the bit-precise comparison and classification contracts and for functions that only move, negate, fill or take absolute values (those are bit-precise)',
 'constants of the code equal to a constant of the contract within single-precision rounding (4e-7 relative) are read as that constant',
 'reciprocal and reciprocal-square-root approximations of the hardware are read as exact where the interface documents "fast"',
 'pointer arguments point to objects of exactly the declared type, suitably aligned for the build configuration, not overlapping except as whole equal objects',
 'divisors are non-zero where the mathematical definition divides (the contract divides by the same quantity); stated preconditions of the contracts (cgv/specs) hold',
 'NEON and WASM code is verified from clang\'s IR for those targets with declaration-only libc headers; counterexamples for WASM are executed on node, NEON and 32-bit SSE code is not executed here',
]
def assumptions(pid):
    out = list(ASSUME)
    if pid == 'C33': out = [ASSUME[0], ASSUME[5], 'the arrays do not overlap, hold at least `count` elements, and their size in bytes fits the address space; the chained product gets at least two matrices and a result that is none of them']
    if pid == 'C35': out = ['assumed contract of the C library: fprintf/snprintf/fputs/fputc/fwrite append to the stream exactly the text their format and arguments denote (C11 7.21.6.1), and snprintf returns its length', 'a NaN component is printed alike by the two number formats (%f, %g)']
    if pid == 'C34': out = [ASSUME[0], ASSUME[1], ASSUME[5]]
    if pid == 'C36': out = [ASSUME[0], ASSUME[3], 'storage layout as clang lays it out for the target of each configuration', ASSUME[5]]
    if pid == 'C37': out = list(ASSUME[:1]) + [ASSUME[2], ASSUME[3], 'the divisor of glmm_div is non-zero', ASSUME[5]]
    if pid == 'C04': out = [ASSUME[3], 'division and remainder: divisor non-zero, not INT_MIN/-1 (C leaves these undefined)', ASSUME[5]]
    return out

def allowed(c, cfg): return not c.configs or cfg in c.configs

def inline_fns(pred): return [c.name for c in REG.c.values() if c.name.startswith('glm_') and pred(c)]

SUF = ('_rh_no', '_lh_no', '_rh_zo', '_lh_zo')
CONV = {'sse2': 'rh_no', 'lh_no': 'lh_no', 'rh_zo': 'rh_zo', 'lh_zo': 'lh_zo'}
def dispatch_pairs(names, conv):
    """(unsuffixed, variant for this convention)"""
    hand, z = conv.split('_')
    out = []
    s = set(names)
    for n in names:
        if n.endswith('_clamp'): continue       # the _zo of clamp_zo is not a convention
        for v in ('%s_%s' % (n, conv), '%s_%s' % (n, hand), '%s_%s' % (n, z)):
            if v in s: out.append((n, v)); break
    return out

RELATIONAL = {'C27', 'C28', 'C29', 'C30', 'C31', 'C32'}      # these compare or inspect bodies; no callee contract is relied on for the result

# functions a property also speaks of although another property owns their contract (regular expressions over glm_<name>)
ALSO = {
 'C01': r'(vec|ivec)\d_(clamp|max|min|maxv|minv|sign|abs)|vec3_center|vec2_center|eq|quat_lerpc?',
 'C02': r'vec\d_(scale_as|lerp|step|eq\w*|normalize(_to)?)|vec3_cross|dot|cross',
 'C03': r'vec2_cross|vec\d_(norm|norm2|distance2?|dot|center)|vec2_complex_\w+|plane_normalize',
 'C04': r'sign|imin|imax',
 'C05': r'ivec\d_eqv?|uniscaled|aabb(2d)?_isvalid|signf',
 'C06': r'vec4_cubic|smc|inv_tr|mat\d_det|vec3_rotate_m[34]|aabb_transform|quat_rotate',
 'C07': r'quat_inv|mat\d_(mul|transpose\w*)|mul',
 'C08': r'mul|mul_rot|inv_tr|vec3_rotate\w*|quat_rotate\w*|mat4_textrans',
 'C09': r'translate|scale|rotate|vec3_cross',
 'C10': r'mat3_textrans|vec2_rotate',
 'C11': r'quat_(rotatev|from_vecs|lerp|nlerp|mat4)|vec4_(normalize|scale|dot|norm)',
 'C12': r'quat(v)?|quat_(look|for|forp|normalize|mul|axis|angle)|vec3_rotate',
 'C13': r'quat_from_vecs|lookat_rh|look_rh|mat3_quat|quat_(add|dot|normalize|rotatev)',
 'C14': r'quat(v)?|quat_(mul|mat4)|mat4_quat|rotate_[xyz]',
 'C15': r'perspective_resize\w*|persp_move_far\w*|pickmatrix',
 'C16': r'(perspective|frustum|perspective_default)(_[rl]h_[nz]o)?',
 'C17': r'quat_(look|for|forp)|vec3_ortho|rotate',
 'C18': r'perspective|ortho|frustum_corners|mat4_inv|mat4_mulv',
 'C19': r'aabb_frustum|perspective|frustum|mat4_inv|aabb_(size|center)',
 'C20': r'frustum_(box|planes)|sphere_\w+|vec3_(min|max)v',
 'C21': r'vec2_(min|max)v|vec2_(min|max)add',
 'C22': r'aabb_(sphere|radius)|ray_sphere|vec3_distance2?',
 'C23': r'sphere_\w+|aabb_sphere|vec3_(cross|dot|muladds)',
 'C24': r'vec4_cubic|mat4_rmc|mat\d_rmc|lerp',
 'C25': r'lerp|smooth',
 'C26': r'vec4_(mods|fract|floor|step|abs)|vec4_steps',
 'C33': r'mat[234]_(identity|mul)|quat_identity',
 'C34': r'bezier',
}
ALSO_LOOPS = {'C06': r'glm\w*_mat\d_(identity_array|mulN)', 'C11': r'glm\w*_quat_identity_array', 'C28': r'.*', 'C29': r'glmc_.*', 'C30': r'glms_.*'}
ALSO_BISECT = {'C24': r'.*', 'C29': r'glmc_.*'}
def also_jobs(pid):
    jobs = []
    if pid in ALSO_LOOPS: jobs += [(c, a) for c in ALL for a in (('call',) if pid == 'C29' else ('struct',) if pid == 'C30' else ('inline', 'call', 'struct'))]
    if pid in ALSO_BISECT: jobs += [(c, a) for c in ALL for a in (('call',) if pid == 'C29' else ('inline', 'call'))]
    if pid in ALSO: jobs += [(c, 'inline') for c in ALL]
    return jobs
def also(pid, ok, have):
    """further work for the property: functions of other owners it speaks of, array functions, the solver"""
    from . import loops, bisect
    work = []
    rx = ALSO.get(pid)
    if rx:
        names = [c.name for c in REG.c.values() if re.fullmatch('glm_(?:%s)' % rx, c.name)]
        work += [('contract', cfg, 'inline', n) for cfg in ALL if (cfg, 'inline') in ok for n in names if allowed(REG.c[n], cfg)]
    for tab, mode, specs in ((ALSO_LOOPS, 'loop', [(n, s.api) for n, s in loops.SPECS.items()]), (ALSO_BISECT, 'bisect', list(bisect.SPECS.items()))):
        rx = tab.get(pid)
        if rx: work += [(mode, cfg, a, n) for cfg in ALL for n, a in specs if (cfg, a) in ok and re.fullmatch(rx, n)]
    return [w for w in work if w not in have]

def plan(pid, tier):
    P, jobs, select = plan0(pid, tier)
    extra = [j for j in dict.fromkeys(also_jobs(pid)) if j not in jobs]
    def sel(w, ok):
        work, missing = select(w, ok)
        return work + also(pid, ok, set(work)), missing
    return P, jobs + extra, sel

def plan0(pid, tier):
    """-> (preamble, compile jobs, select(work dir, compiled) -> (work, missing))"""
    P = PROPS[pid]
    jobs = []
    sig = lambda w, cfg, api: json.load(open(os.path.join(w, '%s_%s.sig' % (cfg, api))))
    def wrappers(w, ok, fns, apis=('call', 'struct'), cfgs=ALL):
        work = []; missing = []
        want = set(fns)
        for cfg in cfgs:
            for api in apis:
                if (cfg, api) not in ok: continue
                pre = 'glmc_' if api == 'call' else 'glms_'
                s = sig(w, cfg, api)
                if api == 'struct': names = wrap.struct_shims(s)[1]
                else: names = [n for n in s if n.startswith(pre)]
                for n in names:
                    b = n if n in REG.c else wrap.base_of(n)
                    if wrap.base_of(n) in want or b in want: work.append(('rel', cfg, api, n))
        return work
    if pid in ('C29', 'C30'):
        api = 'call' if pid == 'C29' else 'struct'
        cfgs = ALL + (list(build.NS) + ['c99'] if pid == 'C30' else [])
        jobs = [(c, api) for c in cfgs]
        def select(w, ok):
            work = wrappers(w, ok, list(REG.c), (api,), cfgs)
            have = {(x[1], x[3]) for x in work}
            exp = wrap.expected(api)
            from .specs import names as NM
            for cfg in build.NS:
                if pid == 'C30' and (cfg, api) in ok: work += [('aliasname', cfg, api, a) for a in NM.TARGET if a.startswith('glms_')]
            return work, [(cfg, api, n) for cfg in build.NS if (cfg, api) in ok and pid == 'C30' for n in build.ns_names(cfg) if n not in exp and n not in sig(w, cfg, api)] + [(cfg, api, n) for cfg in cfgs if (cfg, api) in ok for n in exp if (cfg, n) not in have]
        return P, jobs, select
    if pid == 'C32':
        jobs = [(c, a) for c in CONV for a in ('inline', 'call', 'struct')]
        def select(w, ok):
            work = []
            for cfg, conv in CONV.items():
                for api, pre in (('inline', 'glm_'), ('call', 'glmc_'), ('struct', 'glms_')):
                    if (cfg, api) not in ok: continue
                    s = sig(w, cfg, api)
                    names = wrap.struct_shims(s)[1] if api == 'struct' else [n for n in s if n.startswith(pre)]
                    names = [n for n in names if n in REG.c or wrap.base_of(n) in REG.c]
                    work += [('disp', cfg, api, p) for p in dispatch_pairs(names, conv)]
            return work, []
        return P, jobs, select
    if pid == 'C31':
        jobs = [(c, 'inline') for c in ALL if c not in ('lh_no', 'rh_zo', 'lh_zo', 'altdef')]
        def select(w, ok):
            fns = inline_fns(lambda c: True)
            return [('simd', c, 'inline', n) for c, a in jobs if c not in ('scalar', 'fastmath') and (c, a) in ok and ('scalar', a) in ok for n in fns if allowed(REG.c[n], c)], []
        jobs = [j for j in jobs if j[0] != 'fastmath']
        return P, jobs, select
    if pid == 'C33':
        from . import loops
        jobs = [(c, a) for c in ALL for a in ('inline', 'call', 'struct')]
        def select(w, ok): return [('loop', cfg, s.api, n) for cfg in ALL for n, s in loops.SPECS.items() if (cfg, s.api) in ok], []
        return P, jobs, select
    if pid == 'C34':
        from . import bisect
        jobs = [(c, a) for c in ALL for a in ('inline', 'call')]
        def select(w, ok): return [('bisect', cfg, a, n) for cfg in ALL for n, a in bisect.SPECS.items() if (cfg, a) in ok], []
        return P, jobs, select
    if pid == 'C35':
        from . import prints
        jobs = [(c, a) for c in prints.CONFIGS for a in prints.APIS[c]]
        def select(w, ok): return [('print', c, prints.SPECS[n][0], n) for c in prints.CONFIGS for n in prints.functions(c) if (c, prints.SPECS[n][0]) in ok], []
        return P, jobs, select
    if pid == 'C36':
        from .specs import names as NM
        jobs = [(c, 'names') for c in ALL + ['apple']]
        names = [c.name for c in REG.c.values() if c.name.startswith('cgvn_')]
        def select(w, ok):
            work = [('name', cfg, 'names', n) for cfg in ALL + ['apple'] if (cfg, 'names') in ok for n in names if allowed(REG.c[n], cfg) and (cfg != 'apple' or REG.c[n].configs == ('apple',))]
            return work + [('aliasname', cfg, 'names', a) for cfg in ALL if (cfg, 'names') in ok for a, t in NM.ALIASES], []
        return P, jobs, select
    if pid == 'C37':
        from .specs import simdops as SO
        jobs = [(c, 'simdops') for c in ALL if c in SO.SIMD]
        names = [c.name for c in REG.c.values() if c.name.startswith('cgvs_')]
        def select(w, ok): return [('name', cfg, 'simdops', n) for cfg, a in jobs if (cfg, a) in ok for n in names if allowed(REG.c[n], cfg)], []
        return P, jobs, select
    jobs = [(c, 'inline') for c in ALL]
    if pid == 'C27': mode, fns = 'alias', inline_fns(lambda c: any(p.mode == 'in' and p.ty.ptr and p.ty.compat(o.ty) and c.may_alias(o, p) for o in c.outs for p in c.params))
    elif pid == 'C28': mode, fns = 'side', inline_fns(lambda c: True)
    else:
        mode, fns = 'contract', inline_fns(lambda c: c.prop == pid)
        if P['api']: jobs += [(c, a) for c in ALL for a in ('call', 'struct')]
    def select(w, ok):
        work = [(mode, cfg, 'inline', n) for cfg in ALL if (cfg, 'inline') in ok for n in fns if allowed(REG.c[n], cfg)]
        if mode == 'contract' and P['api']: work += wrappers(w, ok, [n for n in REG.c if REG.c[n].prop == pid or n in fns])
        for l in REG.lemmas:
            if l.prop == pid:
                for cfg in l.configs: work.append(('lemma', cfg, 'inline', l.name))
        return work, []
    return P, jobs, select

TECH = 'contract-based deductive verification: function contracts, symbolic execution of the extracted IR, normalisation and SMT back ends'
NOTAPPLICABLE = {}

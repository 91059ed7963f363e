/* src/ovxx/detail/config.hpp.  Generated from config.hpp.in by configure.  */
/* src/ovxx/detail/config.hpp.in.  Generated from configure.ac by autoheader.  */

/* Define to 1 if you have the `acosh' function. */
#define HAVE_ACOSH 1

/* Define to 1 if you have the <cublas.h> header file. */
/* #undef HAVE_CUBLAS_H */

/* Define to 1 if you have the <cufft.h> header file. */
/* #undef HAVE_CUFFT_H */

/* Define to 1 if you have the declaration of `exp10', and to 0 if you don't.
   */
#define HAVE_DECL_EXP10 1

/* Define to 1 if you have the declaration of `exp10f', and to 0 if you don't.
   */
#define HAVE_DECL_EXP10F 1

/* Define to 1 if you have the declaration of `exp10l', and to 0 if you don't.
   */
#define HAVE_DECL_EXP10L 1

/* Define to 1 if you have the declaration of `hypot', and to 0 if you don't.
   */
#define HAVE_DECL_HYPOT 1

/* Define to 1 if you have the declaration of `hypotf', and to 0 if you don't.
   */
#define HAVE_DECL_HYPOTF 1

/* Define to 1 if you have the declaration of `memalign', and to 0 if you
   don't. */
#define HAVE_DECL_MEMALIGN 1

/* Define to 1 if you have the declaration of `posix_memalign', and to 0 if
   you don't. */
#define HAVE_DECL_POSIX_MEMALIGN 1

/* Define to 1 if you have the <fftw3.h> header file. */
#define HAVE_FFTW3_H 1

/* Define to 1 if you have the `getenv' function. */
#define HAVE_GETENV 1

/* Define to 1 if you have the `hypot' function. */
#define HAVE_HYPOT 1

/* Define to 1 if you have the `hypotf' function. */
#define HAVE_HYPOTF 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define to 1 if you have the `OpenCL' library (-lOpenCL). */
/* #undef HAVE_LIBOPENCL */

/* Define to 1 if you have the `vsip' library (-lvsip). */
/* #undef HAVE_LIBVSIP */

/* Define to 1 if you have the <malloc.h> header file. */
#define HAVE_MALLOC_H 1

/* Define to 1 if you have the `memalign' function. */
#define HAVE_MEMALIGN 1

/* Define to 1 if you have the <png.h> header file. */
/* #undef HAVE_PNG_H */

/* Define to 1 if you have the `posix_memalign' function. */
#define HAVE_POSIX_MEMALIGN 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the '$fcn' function. */
#define HAVE_STD_ISFINITE 1

/* Define to 1 if you have the '$fcn' function. */
#define HAVE_STD_ISNAN 1

/* Define to 1 if you have the '$fcn' function. */
#define HAVE_STD_ISNORMAL 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the <sys/mman.h> header file. */
#define HAVE_SYS_MMAN_H 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to 1 if you have the `vsip_conv1d_create_d' function. */
/* #undef HAVE_VSIP_CONV1D_CREATE_D */

/* Define to 1 if you have the `vsip_conv1d_create_f' function. */
/* #undef HAVE_VSIP_CONV1D_CREATE_F */

/* Define to 1 if you have the `vsip_conv2d_create_d' function. */
/* #undef HAVE_VSIP_CONV2D_CREATE_D */

/* Define to 1 if you have the `vsip_conv2d_create_f' function. */
/* #undef HAVE_VSIP_CONV2D_CREATE_F */

/* Define to 1 if you have the `vsip_corr1d_create_d' function. */
/* #undef HAVE_VSIP_CORR1D_CREATE_D */

/* Define to 1 if you have the `vsip_corr1d_create_f' function. */
/* #undef HAVE_VSIP_CORR1D_CREATE_F */

/* Define to 1 if you have the `vsip_corr2d_create_d' function. */
/* #undef HAVE_VSIP_CORR2D_CREATE_D */

/* Define to 1 if you have the `vsip_corr2d_create_f' function. */
/* #undef HAVE_VSIP_CORR2D_CREATE_F */

/* Define to 1 if the system has the type `vsip_fir_attr'. */
/* #undef HAVE_VSIP_FIR_ATTR */

/* Define to 1 if you have the `vsip_mmaxval_d' function. */
/* #undef HAVE_VSIP_MMAXVAL_D */

/* Define to 1 if you have the `vsip_mmaxval_f' function. */
/* #undef HAVE_VSIP_MMAXVAL_F */

/* Define to 1 if you have the `vsip_msumval_bl' function. */
/* #undef HAVE_VSIP_MSUMVAL_BL */

/* Define to 1 if you have the `vsip_msumval_d' function. */
/* #undef HAVE_VSIP_MSUMVAL_D */

/* Define to 1 if you have the `vsip_msumval_f' function. */
/* #undef HAVE_VSIP_MSUMVAL_F */

/* Define to 1 if you have the `vsip_msumval_i' function. */
/* #undef HAVE_VSIP_MSUMVAL_I */

/* Alignment for allocated memory (in bytes) */
#define OVXX_ALLOC_ALIGNMENT 32

/* Hardcoded CPU Speed (in MHz). */
/* #undef OVXX_CPU_SPEED */

/* Define to set whether or not to use NVIDIA's CUDA FFT library. */
/* #undef OVXX_CUDA_FFT */

/* Define to use the C-VSIPL library to perform FFTs. */
/* #undef OVXX_CVSIP_FFT */

/* Define if C-VSIPL supports bool views. */
/* #undef OVXX_CVSIP_HAVE_BOOL */

/* Define if C-VSIPL supports double operations. */
/* #undef OVXX_CVSIP_HAVE_DOUBLE */

/* Define if C-VSIPL supports float operations. */
/* #undef OVXX_CVSIP_HAVE_FLOAT */

/* Define if C-VSIPL supports int views. */
/* #undef OVXX_CVSIP_HAVE_INT */

/* Description */
#define OVXX_DEFAULT_COMPLEX_STORAGE_SPLIT 0

/* Define to enable DFT FFT backend. */
/* #undef OVXX_DFT_FFT */

/* Define to enable huge page pool support. */
#define OVXX_ENABLE_HUGE_PAGE_POOL 1

/* Set to 1 to enable OpenMP. */
/* #undef OVXX_ENABLE_OMP */

/* Set to 1 to enable multi-threading. */
#define OVXX_ENABLE_THREADING 1

/* Define to build using FFTW headers. */
#define OVXX_FFTW 1

/* Define to 1 if -lfftw3d was found. */
#define OVXX_FFTW_HAVE_DOUBLE 1

/* Define to 1 if -lfftw3f was found. */
#define OVXX_FFTW_HAVE_FLOAT 1

/* Define to build using multi-threaded FFTW API. */
/* #undef OVXX_FFTW_THREADS */

/* Define to use both ::abs and std::abs for vsip::mag. */
/* #undef OVXX_FIX_MISSING_ABS */

/* Define to 1 to use C++ exceptions. */
#define OVXX_HAS_EXCEPTIONS 1

/* Define to set whether or not BLAS is present. */
#define OVXX_HAVE_BLAS 1

/* Define to set whether or not to use clMath. */
/* #undef OVXX_HAVE_CLMATH */

/* Define to set whether or not to use NVIDIA's CUDA libraries. */
/* #undef OVXX_HAVE_CUDA */

/* Define to use C-VSIPL library. */
/* #undef OVXX_HAVE_CVSIP */

/* Define to set whether or not to use Intel's IPP library. */
/* #undef OVXX_HAVE_IPP */

/* Define to set whether or not LAPACK is present. */
#define OVXX_HAVE_LAPACK 1

/* Define to set whether or not LAPACKE is present. */
/* #undef OVXX_HAVE_LAPACKE */

/* Define if LTTNG is available. */
/* #undef OVXX_HAVE_LTTNG */

/* Define to 1 if MKL vector math library is available. */
/* #undef OVXX_HAVE_MKL_VML */

/* Define if MPI is available. */
#define OVXX_HAVE_MPI 1

/* Define to set whether or not to use OpenCL. */
/* #undef OVXX_HAVE_OPENCL */

/* Define to set whether or not to use Mercury's SAL library. */
/* #undef OVXX_HAVE_SAL */

/* Define if Mercury's SAL library provides double support. */
/* #undef OVXX_HAVE_SAL_DOUBLE */

/* Define if Mercury's SAL library provides float support. */
/* #undef OVXX_HAVE_SAL_FLOAT */

/* Define if Mercury's SAL library has vsdivix. */
/* #undef OVXX_HAVE_SAL_VSDIVIX */

/* Define if Mercury's SAL library provides vthrx. */
/* #undef OVXX_HAVE_SAL_VTHRX */

/* Define to use Intel's IPP library to perform FFTs. */
/* #undef OVXX_IPP_FFT */

/* Define to enable dummy FFT backend. */
/* #undef OVXX_NO_FFT */

/* Define to use Mercury's SAL library to perform FFTs. */
/* #undef OVXX_SAL_FFT */

/* Define if Mercury's SAL uses signed char *. */
/* #undef OVXX_SAL_USES_SIGNED */

/* Use ia32 time stamp counter */
/* #undef OVXX_TIMER_IA32_TSC */

/* Use clock_gettime() */
#define OVXX_TIMER_POSIX 1

/* Use Power timebase */
/* #undef OVXX_TIMER_POWER */

/* Use std::chrono::high_resolution_clock */
/* #undef OVXX_TIMER_SYSTEM */

/* Use x64 time stamp counter */
/* #undef OVXX_TIMER_X64_TSC */

/* CBLAS style (0 == no CBLAS, 1 = ATLAS CBLAS, 2 = MKL CBLAS). */
#define OVXX_USE_CBLAS 1

/* Use LAPACK ILAENV (0 == do not use, 1 = use). */
#define OVXX_USE_LAPACK_ILAENV 0

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "devel@openvsip.org"

/* Define to the full name of this package. */
#define PACKAGE_NAME "OpenVSIP"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "OpenVSIP 1.0"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "openvsip"

/* Define to the home page for this package. */
#define PACKAGE_URL ""

/* Define to the version of this package. */
#define PACKAGE_VERSION "1.0"

/* Define if Mercury's MultiCore SAL is enabled. */
/* #undef SAL_ENABLE_MULTICORE */

/* The size of `bool', as computed by sizeof. */
#define SIZEOF_BOOL 1

/* The size of `int', as computed by sizeof. */
#define SIZEOF_INT 4

/* The size of `int *', as computed by sizeof. */
#define SIZEOF_INT_P 8

/* The size of `long', as computed by sizeof. */
#define SIZEOF_LONG 8

/* The size of `long long', as computed by sizeof. */
#define SIZEOF_LONG_LONG 8

/* The size of `short', as computed by sizeof. */
#define SIZEOF_SHORT 2

/* Define to 1 if all of the C90 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1

/* machine is littleendian */
#define VSIP_BIG_ENDIAN 0

/* Define WORDS_BIGENDIAN to 1 if your processor stores words with the most
   significant byte first (like Motorola and SPARC, unlike Intel). */
#if defined AC_APPLE_UNIVERSAL_BUILD
# if defined __BIG_ENDIAN__
#  define WORDS_BIGENDIAN 1
# endif
#else
# ifndef WORDS_BIGENDIAN
/* #  undef WORDS_BIGENDIAN */
# endif
#endif

/* Configuration of the code under test: mirrors what configure finds on this Linux platform. */
#define CLEANUP_ROUTINES 1
#define HAS_GENERIC 1
#define HAVE_ALARM 1
#define HAVE_ARPA_INET_H 1
#define HAVE_CLOCK_GETTIME 1
#define HAVE_DECL_STRERROR_R 1
#define HAVE_DLFCN_H 1
#define HAVE_ENDIAN_H 1
#define HAVE_FCNTL_H 1
#define HAVE_FEATURES_H 1
#define HAVE_FORK 1
#define HAVE_GETADDRINFO 1
#define HAVE_GETPAGESIZE 1
#define HAVE_GETTIMEOFDAY 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIMITS_H 1
#define HAVE_MALLOC 1
#define HAVE_MEMCHR 1
#define HAVE_MEMMOVE 1
#define HAVE_MEMSET 1
#define HAVE_MKDIR 1
#define HAVE_MMAP 1
#define HAVE_MUNMAP 1
#define HAVE_NETDB_H 1
#define HAVE_NETINET_IN_H 1
#define HAVE_PAUSE 1
#define HAVE_PTHREAD 1
#define HAVE_PTHREAD_PRIO_INHERIT 1
#define HAVE_PTHREAD_SETNAME_NP 1
#define HAVE_PTHREAD_TIMEDJOIN_NP 1
#define HAVE_PTRDIFF_T 1
#define HAVE_REALLOC 1
#define HAVE_SCANDIR 1
#define HAVE_SETENV 1
#define HAVE_SETLINEBUF 1
#define HAVE_SETUID 1
#define HAVE_SIGWAIT 1
#define HAVE_SOCKET 1
#define HAVE_STDDEF_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRCASECMP 1
#define HAVE_STRERROR 1
#define HAVE_STRERROR_R 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_STRNCASECMP 1
#define HAVE_STRTOUL 1
#define HAVE_SYS_IOCTL_H 1
#define HAVE_SYS_MMAN_H 1
#define HAVE_SYS_PARAM_H 1
#define HAVE_SYS_SOCKET_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TIME_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_TERMIOS_H 1
#define HAVE_UNISTD_H 1
#define HAVE_VFORK 1
#define HAVE_WAIT 1
#define HAVE_WORKING_FORK 1
#define HAVE_WORKING_VFORK 1
#define HAVE__BOOL 1
#define PTHREAD_CANCELLATION_POINTS 1
#define STDC_HEADERS 1
#define PACKAGE "openskyd"
#define PACKAGE_NAME "openskyd"
#define PACKAGE_STRING "openskyd 2.1.7"
#define PACKAGE_VERSION "2.1.7"
#define VERSION "2.1.7"

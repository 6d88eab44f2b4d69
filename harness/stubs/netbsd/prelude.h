/* host headers first, then pretend to be NetBSD */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <fcntl.h>
#include <errno.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/random.h>
#undef __linux__
#undef linux
#undef __linux
#define __NetBSD__ 1

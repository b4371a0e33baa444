/* arc ARCHIVE SUBPATH...: extracts each entry with ftwin's extraction function and prints, per
 * entry, the temporary file it returned ('-' for none), whether the process's file creation mask
 * and open descriptors are as before.  mkstemp is recorded, so that leftovers can be found. */
#define _GNU_SOURCE
#include <dirent.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <apr_general.h>
#include <apr_pools.h>
#include "ft_archive.h"
#include "ft_file.h"
#include "ft_types.h"

static int fds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static char made[64][64]; static int nmade, failn, refuse;
int __real_mkstemp(char *t);
static int note(char *t, int fd) { if (fd >= 0 && nmade < 64) snprintf(made[nmade++], 64, "%s", t); return fd; }
int __wrap_mkstemp(char *t) { if (refuse) return -1; return note(t, __real_mkstemp(t)); }
int __real_mkostemp(char *t, int f);
int __wrap_mkostemp(char *t, int f) { if (refuse) return -1; return note(t, __real_mkostemp(t, f)); }

int main(int argc, char **argv)
{
    apr_pool_t *pool, *sub;
    apr_initialize();
    apr_pool_create(&pool, NULL);
    refuse = getenv("ARC_REFUSE") != NULL;
    if (getenv("ARC_ROOM")) {          /* a limited temporary directory: writes beyond that size fail */
        struct rlimit l = { strtoul(getenv("ARC_ROOM"), NULL, 10), RLIM_INFINITY };
        signal(SIGXFSZ, SIG_IGN);
        setrlimit(RLIMIT_FSIZE, &l);
    }
    mode_t mask = getenv("ARC_UMASK") ? (mode_t) strtoul(getenv("ARC_UMASK"), NULL, 8) : 027;
    for (int i = 2; i < argc; i++) {
        umask(mask);
        apr_pool_create(&sub, pool);
        ft_file_t f;
        memset(&f, 0, sizeof f);
        f.path = argv[1];
        f.subpath = argv[i];
        int before = fds();
        nmade = 0;
        char *t = ft_archive_untar_file(&f, sub);
        int after = fds();
        mode_t m = umask(027);
        printf("%s\t%d\t%o", t ? t : "-", after - before, (unsigned) m);
        for (int k = 0; k < nmade; k++) printf("\t%s", made[k]);
        printf("\n");
        apr_pool_destroy(sub);
    }
    fflush(stdout);
    return 0;
}

/* Every environment variable somebody asks for is set. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>

extern char **environ;

char *getenv(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    /* what the standard libraries themselves look at */
    if (!strncmp(name, "RUST_", 5) || !strncmp(name, "MALLOC_", 7) || !strncmp(name, "LD_", 3) || !strncmp(name, "VP_", 3)) return 0;
    return "1";
}

// Stand-in for clang-format: removes leading white space of every line. SIMCF says what goes wrong.
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static char *slurp(FILE *f, size_t *n) {
    char *b = NULL;
    size_t cap = 0;
    *n = 0;
    while (1) {
        if (*n + 65536 > cap) {
            b = (char *)realloc(b, cap = cap * 2 + 131072);
        }
        size_t r = fread(b + *n, 1, 65536, f);
        if (!r) {
            return b;
        }
        *n += r;
    }
}
static size_t format(char *b, size_t n) {
    size_t o = 0;
    int start = 1;
    for (size_t i = 0; i < n; ++i) {
        if (start && (b[i] == ' ' || b[i] == '\t')) {
            continue;
        }
        start = b[i] == '\n';
        b[o++] = b[i];
    }
    return o;
}
static void killPy(void) {
    const char *p = getenv("SIMCF_PY");
    if (p && atoi(p) > 1) {
        kill(atoi(p), SIGKILL);
        usleep(20000);
    }
}
static int one(FILE *in, const char *name, int inplace, const char *m) {
    size_t n;
    char *b = slurp(in, &n);
    if (in != stdin) {
        fclose(in);
    }
    n = format(b, n);
    if (strcmp(m, "before") == 0) {
        return 1;
    }
    if (strcmp(m, "orphan0") == 0) {
        killPy();
    }
    int half = strcmp(m, "half") == 0 || strcmp(m, "halfkill") == 0 || strcmp(m, "orphanhalf") == 0;
    FILE *o = stdout;
    if (inplace) {
        o = fopen(name, "w");
        if (!o) {
            return 1;
        }
    }
    fwrite(b, 1, half ? n / 2 : n, o);
    fflush(o);
    if (inplace) {
        fclose(o);
    }
    if (strcmp(m, "halfkill") == 0) {
        raise(SIGKILL);
    }
    if (strcmp(m, "orphanhalf") == 0 || strcmp(m, "orphan1") == 0) {
        killPy();
    }
    return half || strcmp(m, "after") == 0;
}
int main(int argc, char **argv) {
    const char *m = getenv("SIMCF") ? getenv("SIMCF") : "ok";
    int inplace = 0, files = 0, r = 0;
    if (strcmp(m, "killed") == 0) {
        raise(SIGKILL);
    }
    if (strcmp(m, "first") == 0) {
        return 1;
    }
    for (int i = 1; i < argc; ++i) {
        inplace |= strcmp(argv[i], "-i") == 0 || strcmp(argv[i], "--i") == 0;
    }
    for (int i = 1; i < argc; ++i) {
        if (argv[i][0] != '-') {
            FILE *f = fopen(argv[i], "r");
            ++files;
            if (!f) {
                return 1;
            }
            r |= one(f, argv[i], inplace, m);
        }
    }
    if (!files) {
        r = one(stdin, NULL, 0, m);
    }
    return r;
}

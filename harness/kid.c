#include <stdbool.h>
#include "kid_actions.h"
int main(int argc, char **argv)
{
    static struct act a[200]; size_t n = 0;
    for (int i = 2; i < argc && n < 200; i++, n++) if (sscanf(argv[i], "%c:%u:%u:%u", &a[n].op, &a[n].n, &a[n].seed, &a[n].chunk) != 4) return 255;
    kid_run(a, n, argv[1]); return 0;
}

// Stand-in for the command line parser of the C library.
#pragma once
#include <getopt.h>
#include <cstring>
extern "C" {
// long and short options, of which no name is a prefix of another but by being the same
char* optarg = nullptr; int optind = 1, opterr = 1, optopt = 0;
int getopt_long(int argc, char* const* argv, const char* shorts, const struct option* longs, int*) noexcept
{
    if (optind >= argc || argv[optind][0] != '-' || !argv[optind][1]) return -1; const char* a = argv[optind++]; optarg = nullptr;
    if (a[1] != '-') { const char* p = strchr(shorts, a[1]); if (!p || a[1] == ':') return '?'; if (p[1] == ':') { if (a[2]) optarg = (char*)a + 2; else if (optind < argc) optarg = argv[optind++]; else return '?'; } return a[1]; }
    a += 2; size_t n = strcspn(a, "="); for (const struct option* o = longs; o->name; ++o) if (strlen(o->name) == n && !strncmp(o->name, a, n)) { if (o->has_arg) { if (a[n]) optarg = (char*)a + n + 1; else if (optind < argc) optarg = argv[optind++]; else return '?'; } else if (a[n]) return '?'; return o->val; } return '?';
}
}

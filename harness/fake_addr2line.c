/* A stand-in for addr2line: answers from a script, misbehaves as told. Addresses come from the arguments or from stdin. */
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static char** keys; static char** vals; static int nmap;
static const char* lookup(const char* a) {
    for(int i = 0; i < nmap; i++) if(!strcmp(keys[i], a)) return vals[i];
    return NULL;
}
static int pieces;
static void out(const char* s, size_t n) {
    if(pieces) {
        for(size_t i = 0; i < n; i++) { if(write(1, s + i, 1) != 1) _exit(3); if(i % 7 == 0) usleep(200); }
        return;
    }
    while(n) { ssize_t k = write(1, s, n); if(k <= 0) _exit(3); s += k; n -= (size_t)k; }
}
static int dieafter = -1, diewithin = -1, cut = 1, babble = 0, omit = -1, status = 0, count = 0, sleepms = 0;
static char* big; static size_t used, cap;
static void answer(const char* a, const char* base) {
    while(*a == '0' && a[1] == 'x') a += 2;
    char tmp[4096];
    const char* v = lookup(a);
    if(v) snprintf(tmp, sizeof tmp, "%s\n", v);
    else snprintf(tmp, sizeof tmp, "fn_%s at /src/%s/a_rather_long_directory_name/file_%s.c:%ld\n", a, base, a, strtol(a, NULL, 16) % 1000 + 1);
    if(count == dieafter) { out(big, used); kill(getpid(), SIGKILL); }
    if(count == diewithin) { out(big, used); out(tmp, (size_t)cut < strlen(tmp) - 1 ? (size_t)cut : strlen(tmp) - 1); kill(getpid(), SIGKILL); }
    if(count++ == omit) return;
    size_t n = strlen(tmp);
    if(used + n > cap) { out(big, used); used = 0; }
    memcpy(big + used, tmp, n); used += n;
}

int main(int argc, char** argv) {
    const char* dir = getenv("FAKE_DIR");
    char path[4096], line[8192];
    const char* exe = "a.out";
    int i;
    if(argc > 1 && !strcmp(argv[1], "--help")) {
        const char* h = getenv("FAKE_HELP");
        if(h && !strcmp(h, "fail")) return 1;
        if(h && !strcmp(h, "crash")) kill(getpid(), SIGKILL);
        if(h && !strcmp(h, "slow")) usleep(300000);
        return 0;
    }
    for(i = 1; i < argc; i++) if(!strcmp(argv[i], "-e") && i + 1 < argc) exe = argv[i + 1];
    const char* base = strrchr(exe, '/') ? strrchr(exe, '/') + 1 : exe;
    cap = 60000; big = malloc(cap + 8192);
    keys = malloc(sizeof(char*) * 4096); vals = malloc(sizeof(char*) * 4096);
    snprintf(path, sizeof path, "%s/%s.script", dir ? dir : ".", base);
    FILE* f = fopen(path, "r");
    if(f) {
        while(fgets(line, sizeof line, f)) {
            line[strcspn(line, "\n")] = 0;
            if(sscanf(line, "!dieafter %d", &dieafter) == 1) continue;
            if(sscanf(line, "!diewithin %d %d", &diewithin, &cut) >= 1) continue;
            if(sscanf(line, "!babble %d", &babble) == 1) continue;
            if(sscanf(line, "!omit %d", &omit) == 1) continue;
            if(sscanf(line, "!exit %d", &status) == 1) continue;
            if(sscanf(line, "!sleep %d", &sleepms) == 1) continue;
            if(!strcmp(line, "!pieces")) { pieces = 1; cap = 0; continue; }
            char* sp = strchr(line, ' ');
            if(!sp || nmap == 4096) continue;
            *sp = 0; keys[nmap] = strdup(line); vals[nmap++] = strdup(sp + 1);
        }
        fclose(f);
    }
    if(sleepms) usleep(sleepms * 1000);
    int given = 0;
    for(i = 1; i < argc; i++) {
        if(!strcmp(argv[i], "-e")) { i++; continue; }
        if(argv[i][0] == '-') continue;
        given = 1;
        answer(argv[i], base);
    }
    if(!given) while(fgets(line, sizeof line, stdin)) { line[strcspn(line, "\n")] = 0; answer(line, base); }
    if(dieafter >= count) { out(big, used); kill(getpid(), SIGKILL); }
    out(big, used);
    while(babble-- > 0) out("fn_extra at /src/extra.c:1\n", 27);
    return status;
}

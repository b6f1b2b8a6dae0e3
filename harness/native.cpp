// Native run-time for replaying a model: ./prog <entry> <modelfile|-> <nargs> args...
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <dlfcn.h>
#include <unwind.h>
#include <unistd.h>
static std::vector<uint8_t> model; static size_t pos; static uint64_t obs = 1469598103934665603ULL; static unsigned nobs; static size_t live;
extern "C" {
void sym_bytes(void* p, size_t n) { for (size_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = pos < model.size() ? model[pos] : 0, ++pos; }
void sym_assume(int c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(77); } }
void sym_assert(int c, const char* msg) { if (!c) { printf("VIOL assertion failed: %s\n", msg); fflush(stdout); _exit(1); } }
void sym_fail(const char* msg) { printf("VIOL %s\n", msg); fflush(stdout); _exit(1); }
void sym_observe(uint64_t x) { obs = (obs ^ x) * 0x100000001b3ULL; obs ^= obs >> 31; ++nobs; }
void sym_count(int, uint64_t) {}
int sym_native() { return 0; }
void* sym_malloc(size_t n) { ++live; return malloc(n); }
void sym_free(void* p) { if (p) { --live; free(p); } }
size_t sym_live() { return live; }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_fork(int c) { return c; }
void sym_eager(int) {}
void sym_order(const void*, size_t) {}
uint64_t sym_steps() { return 0; }
unsigned sym_depth() { unsigned n = 0; _Unwind_Backtrace([](_Unwind_Context*, void* p) { ++*(unsigned*)p; return _URC_NO_REASON; }, &n); return n; }
void sym_poison(void*, size_t) {}
int sym_perm(const void* a, const void* b, size_t n, size_t size) {
    char* used = (char*)calloc(n + 1, 1); int r = 1;
    for (size_t i = 0; i < n && r; ++i) { r = 0; for (size_t j = 0; j < n; ++j) if (!used[j] && memcmp((const char*)a + i * size, (const char*)b + j * size, size) == 0) { used[j] = 1; r = 1; break; } }
    free(used); return r;
}
}
#include <locale>
extern "C" void vrt_other_locale(void* p) { new (p) std::locale(std::locale(), new std::collate<char>()); }
#include <sys/wait.h>
typedef void (*entry_t)(long, long, long, long, long, long, long, long, long, long, long, long);
static void load_hex(const char* h) {
    auto hv = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; };
    model.clear(); int acc = -1;
    for (; *h; ++h) { int v = hv(*h); if (v < 0) continue; if (acc < 0) acc = v; else { model.push_back((uint8_t)(acc * 16 + v)); acc = -1; } }
}
static int run_one(const char* name, const long* a) {
    auto fn = (entry_t)dlsym(RTLD_DEFAULT, name);
    if (!fn) { printf("NOENTRY %s\n", name); return 3; }
    live = 0;
    fn(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
    printf("OBS %llu %u\n", (unsigned long long)obs, nobs); fflush(stdout); return 0;
}
static char* slurp(const char* path) {
    FILE* f = fopen(path, "r"); if (!f) exit(3); size_t cap = 1 << 16, n = 0; char* b = (char*)malloc(cap); int c;
    while ((c = fgetc(f)) != EOF) { if (n + 2 > cap) b = (char*)realloc(b, cap *= 2); b[n++] = (char)c; } b[n] = 0; fclose(f); return b;
}
// prog <entry> <modelfile> <nargs> args...        one replay
// prog --batch <file>                             lines: entry nargs args... hex   (each in its own process)
int main(int argc, char** argv) {
    if (argc == 3 && !strcmp(argv[1], "--batch")) {
        char* b = slurp(argv[2]); char* save; model.reserve(1 << 16);
        for (char* line = strtok_r(b, "\n", &save); line; line = strtok_r(nullptr, "\n", &save)) {
            char* s2; char* e = strtok_r(line, " ", &s2); int n = atoi(strtok_r(nullptr, " ", &s2)); long a[12] = {0};
            for (int i = 0; i < n; ++i) { long v = atol(strtok_r(nullptr, " ", &s2)); if (i < 12) a[i] = v; }
            char* h = strtok_r(nullptr, " ", &s2); fflush(stdout);
            pid_t p = fork();
            if (p == 0) { alarm(60); load_hex(h ? h : ""); int r = run_one(e, a); fflush(stdout); _exit(r); }
            int st; waitpid(p, &st, 0); if (!WIFEXITED(st)) { printf("CRASH %d\n", st); fflush(stdout); }
        }
        return 0;
    }
    if (argc < 4) return 3;
    char* h = slurp(argv[2]); load_hex(h); free(h);
    int n = atoi(argv[3]); long a[12] = {0}; for (int i = 0; i < n && i < 12; ++i) a[i] = atol(argv[4 + i]);
    int r = run_one(argv[1], a); _exit(r);
}

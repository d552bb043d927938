// A command for tfPipeToXML: does what the script in $VF_SCRIPT says.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
static void put(int fd, const std::string &s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) break; o += n; } }
int main(int argc, char **argv) {
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  const char *sc = getenv("VF_SCRIPT"); FILE *f = sc ? fopen(sc, "rb") : 0; if (!f) return 99;
  int c;
  while ((c = fgetc(f)) != EOF) {
    long n; if (fscanf(f, "%ld", &n) != 1) return 98; fgetc(f);
    if (c == 'W' || c == 'E') { std::string s(n, ' '); if (n && fread(&s[0], 1, n, f) != (size_t)n) return 97; put(c == 'W' ? 1 : 2, s); }
    else if (c == 'S') usleep(n);
    else if (c == 'C') close(n);
    else if (c == 'A') { std::string s; char b[8]; for (int i = 1; i < argc; ++i) { s += "["; for (char *p = argv[i]; *p; ++p) { snprintf(b, sizeof b, "%02x", (unsigned char)*p); s += b; } s += "]"; } s += "\n"; put(1, s); }
    else if (c == 'D') { char b[5000]; if (!getcwd(b, sizeof b)) b[0] = 0; put(1, std::string(b) + "\n"); }
    else if (c == 'K') { signal(n, SIG_DFL); kill(getpid(), n); for (;;) pause(); }
    else if (c == 'X') { fclose(f); _exit(n); }
    while ((c = fgetc(f)) == '\n') {}
    if (c != EOF) ungetc(c, f);
  }
  return 0;
}

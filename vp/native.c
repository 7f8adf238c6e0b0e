/* Native half of a harness: runs it on one replay input, or on random inputs. */
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
jmp_buf vp_jmp;
int vp_searching;
static struct { void *p; size_t n; } vp_regs[16];
static int vp_nregs;
static unsigned char *vp_last;
void vp_register(void *p, size_t n) { vp_regs[vp_nregs].p = p; vp_regs[vp_nregs++].n = n; }
void vp_assume_failed(void) {
  if (vp_searching) longjmp(vp_jmp, 1);
  fprintf(stderr, "VP-ASSUME: input outside the precondition\n");
  exit(77);
}
static const char *vp_out;
static void vp_dump(void) {
  if (!vp_out) return;
  FILE *f = fopen(vp_out, "wb");
  if (!f) return;
  size_t o = 0;
  for (int i = 0; i < vp_nregs; i++) { fwrite(vp_last + o, 1, vp_regs[i].n, f); o += vp_regs[i].n; }
  fclose(f);
}
void vp_assert_failed(const char *msg) {
  fprintf(stderr, "VP-FAIL: %s\n", msg);
  fflush(stderr);
  vp_dump();
  _Exit(1);
}
void __sanitizer_set_death_callback(void (*)(void));
static void vp_on_abrt(int s) { (void)s; vp_dump(); _Exit(1); }
static void vp_on_alrm(int s) { (void)s; vp_dump(); fprintf(stderr, "VP-FAIL: no termination\n"); _Exit(1); }
void VP_ENTRY(void);
#ifdef VP_LOAD
void vp_load(void);
#endif
static uint64_t vp_s;
static uint32_t vp_r(void) {
  vp_s ^= vp_s << 13; vp_s ^= vp_s >> 7; vp_s ^= vp_s << 17;
  return (uint32_t)(vp_s >> 16);
}
int main(int argc, char **argv) {
#ifdef VP_LOAD
  vp_load();
  VP_ENTRY();
  return 0;
#else
  size_t tot = 0;
  for (int i = 0; i < vp_nregs; i++) tot += vp_regs[i].n;
  vp_last = malloc(tot + 1);
  if (argc >= 3 && !strcmp(argv[1], "--bytes")) {
    FILE *f = fopen(argv[2], "rb");
    if (!f) return 3;
    for (int i = 0; i < vp_nregs; i++) if (fread(vp_regs[i].p, 1, vp_regs[i].n, f) != vp_regs[i].n) return 3;
    fclose(f);
    VP_ENTRY();
    return 0;
  }
  double secs = argc > 1 ? atof(argv[1]) : 5;
  vp_s = 88172645463325252ULL + (argc > 2 ? strtoull(argv[2], 0, 10) : 1) * 2654435761u;
  vp_out = argc > 3 ? argv[3] : 0;
  vp_searching = 1;
  __sanitizer_set_death_callback(vp_dump);
  signal(SIGABRT, vp_on_abrt);
  signal(SIGALRM, vp_on_alrm);
  time_t t0 = time(0);
  volatile unsigned long n = 0, ok = 0;
  while (difftime(time(0), t0) < secs) {
    size_t o = 0;
    for (int i = 0; i < vp_nregs; i++) {
      unsigned char *b = vp_regs[i].p;
      unsigned style = vp_r() % 5;
      for (size_t k = 0; k < vp_regs[i].n; k++) {
        unsigned r = vp_r();
        b[k] = style == 0 ? (r & 0xff) : style == 1 ? ((r & 3) ? 0 : (r >> 8) & 0xff)
             : style == 2 ? ((r & 1) ? 0xff : 0) : style == 3 ? ((r >> 8) & ((r & 0x70) ? 7 : 0xff))
             : ((r & 7) ? 0 : 0xff & (r >> 9));
      }
      memcpy(vp_last + o, b, vp_regs[i].n);
      o += vp_regs[i].n;
    }
    n++;
    alarm(10);
    if (setjmp(vp_jmp) == 0) { VP_ENTRY(); ok++; }
  }
  printf("searched %lu inputs, %lu inside the precondition\n", n, ok);
  return 0;
#endif
}

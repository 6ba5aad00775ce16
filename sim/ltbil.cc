// The bilingual lookup of lttoolbox for the reference interpreter (rules.py).
#include <lttoolbox/fst_processor.h>
#include <cstring>
#include <cstdio>
extern "C" void *lt_bil_open(const char *path, int casesens) {
  FILE *f = fopen(path, "rb");
  if (!f) return nullptr;
  auto p = new FSTProcessor;
  p->setCaseSensitiveMode(casesens);
  p->load(f); p->initBiltrans(); fclose(f);
  return p;
}
extern "C" int lt_bil(void *h, const UChar *p, int n, UChar *out, int cap, int *queue) {
  auto r = ((FSTProcessor*)h)->biltransWithQueue(UStringView((const char16_t*)p, n), false);
  if ((int)r.first.size() > cap) return -1;
  memcpy(out, r.first.data(), 2 * r.first.size());
  *queue = r.second;
  return r.first.size();
}

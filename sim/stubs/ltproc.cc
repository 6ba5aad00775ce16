// Stand-in for lt-proc (which lives in another repository): the real
// lttoolbox FSTProcessor behind the smallest command line.
#include <lttoolbox/fst_processor.h>
#include <lttoolbox/file_utils.h>
#include <lttoolbox/input_file.h>
#include <lttoolbox/lt_locale.h>
#include <cstring>
int main(int argc, char** argv) {
  LtLocale::tryToSetLocale();
  if (argc < 3) return 2;
  FSTProcessor fst;
  FILE* f = fopen(argv[2], "rb");
  if (!f) return 1;
  fst.load(f);
  fclose(f);
  if (argc > 3) fst.setNullFlush(true);
  UFILE* out = u_finit(stdout, NULL, NULL);
  InputFile in;
  in.wrap(stdin);
  switch (argv[1][0]) {
    case 'a': fst.initAnalysis(); if (!fst.valid()) return 1; fst.analysis(in, out); break;
    case 'b': fst.initBiltrans(); if (!fst.valid()) return 1; fst.bilingual(in, out); break;
    case 'g': fst.initGeneration(); if (!fst.valid()) return 1; fst.generation(in, out, gm_unknown); break;
    default: return 2;
  }
  u_fflush(out);
  return 0;
}

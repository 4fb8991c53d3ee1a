// FST to VCD, with the reader of the tree's own copy of fstapi.c
#include "fstapi.h"
#include <stdio.h>
int main(int argc, char **argv)
{
   void *xc = fstReaderOpen(argv[1]);
   if (xc == NULL) { fprintf(stderr, "cannot open\n"); return 1; }
   fstReaderSetVcdExtensions(xc, 1);
   if (!fstReaderProcessHier(xc, stdout)) return 1;
   fstReaderSetFacProcessMaskAll(xc);
   fstReaderIterBlocks(xc, NULL, NULL, stdout);
   printf("#END %llu\n", (unsigned long long)fstReaderGetEndTime(xc));
   fstReaderClose(xc);
   return 0;
}

// Binary resources used by the workloads.
#include "res.h"
asm(".section .rodata\n .global res_font_ttf\n .global res_font_ttf_end\n .balign 16\nres_font_ttf:\n .incbin \"" DATA_DIR "/ABeeZee-Regular.ttf\"\nres_font_ttf_end:\n .byte 0\n"
    " .global res_leaves_jpg\n .global res_leaves_jpg_end\n .balign 16\nres_leaves_jpg:\n .incbin \"" DATA_DIR "/leaves.jpg\"\nres_leaves_jpg_end:\n .byte 0\n .text\n");
extern "C" const unsigned char res_font_ttf[], res_font_ttf_end[], res_leaves_jpg[], res_leaves_jpg_end[];
Res res_font() { return Res{res_font_ttf, size_t(res_font_ttf_end - res_font_ttf)}; }
Res res_leaves() { return Res{res_leaves_jpg, size_t(res_leaves_jpg_end - res_leaves_jpg)}; }

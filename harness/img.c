/* img gen DIR SEED: makes a set of related and unrelated pictures in DIR.
 * img dist FILE...: prints which files libpuzzle can read and the distance of each ordered pair. */
#include <gd.h>
#include <math.h>
#include <puzzle.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint64_t s;
static uint32_t rnd(uint32_t n) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return n ? (uint32_t) ((s >> 16) % n) : 0; }
static gdImagePtr draw(void)
{
    int large = rnd(12) == 0;       /* now and then much larger than a screen, in one direction or both */
    gdImagePtr i = gdImageCreateTrueColor(120 + (int) rnd(large && rnd(2) ? 2600 : 120), 120 + (int) rnd(large ? 2600 : 120));
    int k, w = gdImageSX(i), h = gdImageSY(i), n = 3 + (int) rnd(12);
    gdImageFilledRectangle(i, 0, 0, w, h, gdTrueColor((int) rnd(256), (int) rnd(256), (int) rnd(256)));
    for (k = 0; k < n; k++) {
        int c = gdTrueColor((int) rnd(256), (int) rnd(256), (int) rnd(256)), x = (int) rnd((uint32_t) w), y = (int) rnd((uint32_t) h), a = 10 + (int) rnd(100), b = 10 + (int) rnd(100);
        if (rnd(2)) gdImageFilledRectangle(i, x, y, x + a, y + b, c); else gdImageFilledEllipse(i, x, y, a, b, c);
    }
    return i;
}
static gdImagePtr vary(gdImagePtr b)
{
    int w = gdImageSX(b), h = gdImageSY(b), k;
    gdImagePtr i = gdImageCreateTrueColor(w, h);
    gdImageCopy(i, b, 0, 0, 0, 0, w, h);
    switch (rnd(5)) {
    case 0: break;
    case 1: { gdImagePtr z = gdImageCreateTrueColor(w * 3 / 4, h * 3 / 4); gdImageCopyResampled(z, i, 0, 0, 0, 0, w * 3 / 4, h * 3 / 4, w, h); gdImageDestroy(i); i = z; break; }
    case 2: for (k = 0; k < 2 + (int) rnd(10); k++) gdImageFilledRectangle(i, (int) rnd((uint32_t) w), (int) rnd((uint32_t) h), (int) rnd((uint32_t) w), (int) rnd((uint32_t) h), gdTrueColor((int) rnd(256), (int) rnd(256), (int) rnd(256))); break;
    case 3: for (k = 0; k < 400; k++) gdImageSetPixel(i, (int) rnd((uint32_t) w), (int) rnd((uint32_t) h), (int) rnd(1 << 24)); break;
    default: gdImageBrightness(i, (int) rnd(60) - 30);
    }
    return i;
}
static void save(gdImagePtr i, const char *d, int n, const char *tag)
{
    static const char *ext[] = {"png", "jpg", "gif", "jpeg", "PNG", "JPG", "dat", "png.txt", "Jpeg", "tiff"};
    int e = (int) rnd(rnd(3) ? 6 : 10);
    char p[4096];
    snprintf(p, sizeof p, "%s/%s%d.%s", d, tag, n, ext[e]);
    FILE *f = fopen(p, "wb");
    switch (e) {
    case 0: case 4: case 6: case 7: gdImagePng(i, f); break;
    case 2: gdImageGif(i, f); break;
    default: gdImageJpeg(i, f, 40 + (int) rnd(60));
    }
    fclose(f);
}
int main(int argc, char **argv)
{
    if (argc < 3) return 4;
    if (!strcmp(argv[1], "gen")) {
        s = strtoull(argv[3], 0, 10) * 0x9E3779B97F4A7C15ull + 77;
        int bases = 1 + (int) rnd(3), n = 0;
        for (int b = 0; b < bases; b++) {
            gdImagePtr i = draw();
            int m = 1 + (int) rnd(4);
            save(i, argv[2], n++, "base");
            for (int k = 0; k < m; k++) { gdImagePtr v = vary(i); save(v, argv[2], n++, "var"); gdImageDestroy(v); }
            gdImageDestroy(i);
        }
        return 0;
    }
    PuzzleContext c;
    puzzle_init_context(&c);
    puzzle_set_max_width(&c, 5000);
    puzzle_set_max_height(&c, 5000);
    puzzle_set_lambdas(&c, 13);
    int n = argc - 2, i, j;
    PuzzleCvec *v = calloc((size_t) n, sizeof *v);
    char *ok = calloc((size_t) n, 1);
    printf("T %.17g %.17g %.17g %.17g %.17g\n", PUZZLE_CVEC_SIMILARITY_LOWER_THRESHOLD, PUZZLE_CVEC_SIMILARITY_LOW_THRESHOLD, 0.5, PUZZLE_CVEC_SIMILARITY_THRESHOLD, PUZZLE_CVEC_SIMILARITY_HIGH_THRESHOLD);
    for (i = 0; i < n; i++) { puzzle_init_cvec(&c, &v[i]); ok[i] = puzzle_fill_cvec_from_file(&c, &v[i], argv[i + 2]) == 0; printf("F %d %d\n", i, ok[i]); }
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (i != j && ok[i] && ok[j]) printf("D %d %d %.17g\n", i, j, puzzle_vector_normalized_distance(&c, &v[i], &v[j], 0));
    return 0;
}

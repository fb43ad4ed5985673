/* P34: gost12sum's check-file lines.  LINES lines of at most LEN bytes, each
 * starting with HEX arbitrary bytes that may be anything (digits or not). */
#include "vp.h"
#include <stdio.h>
#include <limits.h>
int get_line(FILE *f, char *hash, char *filename, int verbose, int *size);
/* the real buffer has PATH_MAX bytes; the encoding keeps only those a line can
 * reach (accesses beyond them are not reproduced by the replay) */
#ifdef VP_CBMC
# define NAMESZ (LEN + 8)
#else
# define NAMESZ PATH_MAX
#endif
static u8 line[LINES][LEN + 1]; static unsigned llen[LINES], at;
char *vp_fgets(char *b, int n, FILE *f)
{
    unsigned i, k;
    VP_ASSERT(n > (int)LEN && n <= PATH_MAX, "line buffer size");
    if (at == LINES) return NULL;
    for (k = 0; k < LINES; k++) if (at == k) { for (i = 0; i < LEN; i++) b[i] = i < llen[k] ? line[k][i] : i == llen[k] ? 0 : b[i]; if (llen[k] == LEN) b[LEN] = 0; }
    at++;
    return b;
}
int vp_feof(FILE *f) { return at == LINES; }
/* libc's by plain loops: exact, and cheap for symbolic sizes */
void *vp_memcpy(void *d, const void *s, size_t n) { u8 *a = d; const u8 *b = s; size_t i; for (i = 0; i < n; i++) a[i] = b[i]; return d; }
void *vp_memmove(void *d, const void *s, size_t n)
{
    u8 *a = d; const u8 *b = s; u8 t[LEN + 2]; size_t i;
    VP_ASSERT(n <= LEN + 1, "moves more than the line");
    for (i = 0; i < n; i++) t[i] = b[i];
    for (i = 0; i < n; i++) a[i] = t[i];
    return d;
}
static char *name;
/* the first space and the end of a FIXD line are where the line puts them: the
 * solver confirms it (a call that does not fit fails here and only here) */
size_t vp_strlen(const char *s)
{
    size_t i;
#if defined(VP_CBMC) && defined(FIXD)
    if (s == name) { for (i = 0; i < LEN; i++) VP_ASSERT(s[i] != 0, "model: line length"); VP_ASSERT(s[LEN] == 0, "model: line length"); return LEN; }
#endif
    for (i = 0; s[i]; i++) ;
    return i;
}
char *vp_strchr(const char *s, int c)
{
    size_t i;
#if defined(VP_CBMC) && defined(FIXD)
    if (s == name && c == ' ') { for (i = 0; i < FIXD; i++) VP_ASSERT(s[i] != 0 && s[i] != ' ', "model: first space"); VP_ASSERT(s[FIXD] == ' ', "model: first space"); return (char *)s + FIXD; }
#endif
    for (i = 0; s[i] != (char)c; i++) if (!s[i]) return 0;
    return (char *)s + i;
}
static int hexd(u8 c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
/* hash digits a..sp, name sp+1..e; 0: malformed */
static int parse(const u8 *l, unsigned n, unsigned *a, unsigned *sp, unsigned *e)
{
    unsigned i, A = LEN, S = LEN, E = LEN; int good = 1;
    for (i = 0; i < LEN; i++) if (E == LEN && (i >= n || l[i] == 0)) E = i;
    if (n < E) E = n;
    for (i = 0; i < LEN; i++) if (A == LEN && i < E && l[i] != ' ') A = i;
    if (A == LEN) return 0;
    for (i = LEN; i-- > 0; ) if (i + 1 == E && E > A && (l[i] == '\n' || l[i] == '\r')) E = i;
    for (i = 0; i < LEN; i++) if (S == LEN && i > A && i < E && l[i] == ' ') S = i;
    if (S == LEN || S + 1 >= E) return 0;
    for (i = 0; i < LEN; i++) if (i >= A && i < S && !hexd(l[i])) good = 0;
#ifdef FIXD
    /* constants where the line has them */
    VP_ASSERT(A == 0 && S == FIXD, "model: parse"); A = 0; S = FIXD;
#endif
    *a = A; *sp = S; *e = E;
    return good;
}
void vp_main(void)
{
    static int d; unsigned i, j, k, w, a, s, e, n, pa[LINES], ps[LINES], pe[LINES]; int good[LINES]; int r, size; char hash[129];
    for (i = 0; i < LINES; i++) {
        for (j = 0; j < LEN; j++) line[i][j] = nd_u8();
        llen[i] = MINL + nd_upto(LEN - MINL); VP_ASSUME(llen[i] > 0);
        for (j = 0; j < LEN; j++) VP_ASSUME(line[i][j] != '\n' || j + 1 >= llen[i]);
        if (i + 1 < LINES) VP_ASSUME(line[i][llen[i] - 1] == '\n');
    }
#ifdef FIXD
    /* FIRST digits byte, FIXD bytes up to the space, then the name */
    llen[0] = LEN; line[0][0] = FIRST; line[0][FIXD] = ' ';
    for (j = 1; j < LEN; j++) if (j != FIXD) { VP_ASSUME(line[0][j] != 0); if (j < FIXD) VP_ASSUME(line[0][j] != ' '); }
#endif
    for (k = 0; k < LINES; k++) good[k] = parse(line[k], llen[k], &pa[k], &ps[k], &pe[k]);
    for (n = 0, i = 0; i <= LINES; i++) {
        name = malloc(NAMESZ); VP_ASSUME(name != 0); size = 0;
        r = get_line((FILE *)&d, hash, name, 0, &size);
        VP_ASSERT(r == 0 || r == 1, "result");
        for (w = LINES, k = LINES; k-- > 0; ) if (k >= n && good[k]) w = k;
        VP_ASSERT(r == (w < LINES), "a well-formed line was skipped or a malformed one accepted");
        if (!r) break;
        VP_ASSERT(at == w + 1, "took more than one line");
        for (k = 0; k < LINES; k++) if (k == w) {
            a = pa[k]; s = ps[k]; e = pe[k];
            if (s - a == 64 || s - a == 128) {
                VP_ASSERT(size == (int)(s - a) / 2, "digest size");
                for (j = 0; j < 128 && j < LEN; j++) if (j < s - a) VP_ASSERT((u8)hash[j] == line[k][a + j], "digest digits");
                VP_ASSERT(hash[s - a] == 0, "digest not terminated");
            } else VP_ASSERT(size == 0, "digest of another length accepted");
            for (j = 0; j < LEN; j++) if (s + 1 + j < e) VP_ASSERT((u8)name[j] == line[k][s + 1 + j], "file name");
            VP_ASSERT(name[e - s - 1] == 0, "file name not terminated");
        }
        n = w + 1;
        free(name); name = 0;
    }
    VP_ASSERT(i <= LINES, "the end of the file is not reported");
    free(name);
    VP_WITNESS("done");
}

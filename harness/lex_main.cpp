// Reads cases ("<length>\n<bytes>" one after another) and prints the tokens
// the real lexer makes of each: tag, begin and end (row:col:offset), value.
extern "C" {
#include "lang/frontend/lexer.h"
}
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>

extern "C" void printType_(FormatState *, const Type *, bool) {}

int main(int argc, char **argv)
{
    FILE *f = fopen(argv[1], "rb");
    size_t n;
    unsigned k = 0;
    while (fscanf(f, "%zu", &n) == 1) {
        fgetc(f);
        // exactly as long as the text, so that reading past it is seen
        char *data = (char *)malloc(n + 1);
        if (fread(data, 1, n, f) != n)
            return 3;
        data[n] = 0;
        printf("case %u\n", k++);
        Log L = newLog(nullptr, nullptr);
        L.ignoreStyles = true;
        Lexer lexer = newLexer("case.cxy", data, n, &L);
        for (size_t guard = 0;; guard++) {
            Token t = advanceLexer(&lexer);
            printf("%d %u:%u:%zu %u:%u:%zu",
                   (int)t.tag,
                   (unsigned)t.fileLoc.begin.row,
                   (unsigned)t.fileLoc.begin.col,
                   (size_t)t.fileLoc.begin.byteOffset,
                   (unsigned)t.fileLoc.end.row,
                   (unsigned)t.fileLoc.end.col,
                   (size_t)t.fileLoc.end.byteOffset);
            if (t.tag == tokIntLiteral)
                printf(" %llu", (unsigned long long)t.uVal);
            else if (t.tag == tokFloatLiteral)
                printf(" %a", t.fVal);
            else if (t.tag == tokCharLiteral)
                printf(" %u", (unsigned)t.cVal);
            printf("\n");
            if (t.tag == tokEoF)
                break;
            if (guard > 4 * n + 16) {
                printf("endless\n");
                break;
            }
        }
        printf("errors %zu\n", (size_t)L.errorCount);
        freeLexer(&lexer);
        freeLog(&L);
        free(data);
    }
    if (argc > 2) {
        printf("tags\n");
        for (int i = 0; i <= (int)tokError; i++)
            printf("%d %s\n", i, token_tag_to_str((TokenTag)i));
    }
    return 0;
}

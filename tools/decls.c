/* decls REPO FILE FLAGS...: parse FILE and list the functions and variables of REPO it declares and defines.
   One line per declaration: D or d (definition or not), USR, file:line, name. */
#include <clang-c/Index.h>
#include <stdio.h>
#include <string.h>
static const char * repo;
static enum CXChildVisitResult
visit(CXCursor c, CXCursor parent, CXClientData data)
{
  (void)parent;
  (void)data;
  CXSourceLocation const l = clang_getCursorLocation(c);
  if (clang_Location_isInSystemHeader(l)) {
    return CXChildVisit_Continue;
  }
  enum CXCursorKind k = clang_getCursorKind(c);
  enum CXCursorKind const t = k == CXCursor_FunctionTemplate ? clang_getTemplateCursorKind(c) : k;
  int const fn = t == CXCursor_FunctionDecl || t == CXCursor_CXXMethod || t == CXCursor_Constructor ||
                 t == CXCursor_Destructor || t == CXCursor_ConversionFunction;
  if (fn || k == CXCursor_VarDecl) {
    CXFile f;
    unsigned line;
    clang_getExpansionLocation(l, &f, &line, 0, 0);
    CXString const fs = clang_getFileName(f), u = clang_getCursorUSR(clang_getCanonicalCursor(c)), n = clang_getCursorDisplayName(c);
    const char * p = clang_getCString(fs);
    if (p && strncmp(p, repo, strlen(repo)) == 0) {
      int const gone = fn && (clang_CXXMethod_isDeleted(c) || clang_CXXMethod_isPureVirtual(c));
      int const auto_ = fn && clang_CXXMethod_isDefaulted(c);
      int const def = clang_isCursorDefinition(c) || auto_;
      CXCursor const of = clang_getSpecializedCursorTemplate(c);
      if (def && !clang_Cursor_isNull(of)) {
        CXString const us = clang_getCursorUSR(clang_getCanonicalCursor(of));
        printf("D\t%s\t%s:%u\t%s\n", clang_getCString(us), p, line, clang_getCString(n));
        clang_disposeString(us);
      }
      if (!gone) {
        printf("%c\t%s\t%s:%u\t%s\n", def ? 'D' : 'd', clang_getCString(u), p, line, clang_getCString(n));
      }
    }
    clang_disposeString(fs);
    clang_disposeString(u);
    clang_disposeString(n);
    return CXChildVisit_Continue;
  }
  return CXChildVisit_Recurse;
}
int
main(int argc, char ** argv)
{
  repo = argv[1];
  CXIndex const idx = clang_createIndex(0, 0);
  CXTranslationUnit tu;
  if (clang_parseTranslationUnit2(idx, argv[2], (const char * const *)argv + 3, argc - 3, 0, 0, 0, &tu) != CXError_Success) {
    return 3;
  }
  for (unsigned i = 0; i < clang_getNumDiagnostics(tu); ++i) {
    CXDiagnostic const d = clang_getDiagnostic(tu, i);
    if (clang_getDiagnosticSeverity(d) >= CXDiagnostic_Error) {
      CXString const s = clang_formatDiagnostic(d, clang_defaultDiagnosticDisplayOptions());
      fprintf(stderr, "%s\n", clang_getCString(s));
      return 4;
    }
  }
  clang_visitChildren(clang_getTranslationUnitCursor(tu), visit, 0);
  return 0;
}

// Dumps, as clang JSON, every top-level declaration of a translation unit that
// is written in one of the directories given with -root=DIR (repeatable).
// Nothing is rewritten: the output is clang's own typed AST of the code that
// is compiled.  One JSON object per declaration, separated by newlines.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ASTDumperUtils.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <memory>
#include <string>
#include <vector>
using namespace clang;
static std::vector<std::string> roots;
static std::unique_ptr<llvm::raw_fd_ostream> outs_;
class C : public ASTConsumer {
  bool wanted(const Decl* d, SourceManager& sm) {
    SourceLocation l = sm.getExpansionLoc(d->getLocation());
    if (l.isInvalid()) return false;
    StringRef f = sm.getFilename(l);
    llvm::SmallString<256> p(f);
    for (auto& r : roots) if (StringRef(p).starts_with(r)) return true;
    return false;
  }
  void walk(const DeclContext* dc, SourceManager& sm) {
    for (const Decl* d : dc->decls()) {
      if (isa<LinkageSpecDecl>(d) || isa<NamespaceDecl>(d)) {
        if (auto* ns = dyn_cast<NamespaceDecl>(d)) {
          if (ns->getNameAsString() == "std") continue;
        }
        walk(cast<DeclContext>(d), sm);
        continue;
      }
      if (!wanted(d, sm)) continue;
      d->dump(*outs_, false, ADOF_JSON);
      *outs_ << "\n\x1e\n";
    }
  }
public:
  void HandleTranslationUnit(ASTContext& ctx) override {
    walk(ctx.getTranslationUnitDecl(), ctx.getSourceManager());
  }
};
class A : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<C>();
  }
};
int main(int argc, char** argv) {
  // astdump OUT -root=DIR... file.cc -- flags
  std::string file; std::vector<std::string> flags; int i = 2;
  for (; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--") { i++; break; }
    if (a.rfind("-root=", 0) == 0) roots.push_back(a.substr(6)); else file = a;
  }
  for (; i < argc; i++) flags.push_back(argv[i]);
  std::error_code ec;
  outs_ = std::make_unique<llvm::raw_fd_ostream>(argv[1], ec);
  if (ec) return 2;
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  int rc = tool.run(tooling::newFrontendActionFactory<A>().get());
  outs_->flush();
  return rc;
}

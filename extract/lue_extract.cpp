// lue_extract: type-checks one translation unit with the flags of the real build and writes, as
// JSON, the resolved program: every function definition whose body lies under a given source
// prefix (template instantiations and lambdas included), every class, enumeration and global.
//
//   lue_extract <prefix> <out.json> -- <clang cc1-style driver arguments>  (via FixedCompilationDatabase)
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Value;

static std::string prefix;
static std::string outPath;

namespace {

class Emitter
{
    public:

        explicit Emitter(ASTContext& ctx): ctx{ctx}, sm{ctx.getSourceManager()}, policy{ctx.getLangOpts()}
        {
            policy.SuppressTagKeyword = true;
            policy.Bool = true;
            policy.SuppressUnwrittenScope = false;
            policy.FullyQualifiedName = true;
            policy.PrintCanonicalTypes = false;
            policy.UsePreferredNames = false;
            policy.TerseOutput = true;
        }

        std::string typeString(QualType type)
        {
            if (type.isNull())
            {
                return "";
            }
            PrintingPolicy p{policy};
            p.PrintCanonicalTypes = true;
            return type.getCanonicalType().getAsString(p);
        }

        std::pair<std::string, unsigned> location(SourceLocation loc)
        {
            loc = sm.getExpansionLoc(loc);
            PresumedLoc presumed{sm.getPresumedLoc(loc)};
            if (presumed.isInvalid())
            {
                return {"", 0};
            }
            std::string file{presumed.getFilename()};
            llvm::SmallString<256> real;
            auto it = realNames.find(file);
            if (it != realNames.end())
            {
                return {it->second, presumed.getLine()};
            }
            std::string resolved{file};
            if (auto ref = sm.getFileEntryRefForID(sm.getFileID(loc)))
            {
                llvm::StringRef name{ref->getFileEntry().tryGetRealPathName()};
                if (!name.empty())
                {
                    resolved = name.str();
                }
            }
            realNames[file] = resolved;
            return {resolved, presumed.getLine()};
        }

        unsigned line(SourceLocation loc)
        {
            return sm.getExpansionLineNumber(loc);
        }

        bool inScope(SourceLocation loc)
        {
            if (loc.isInvalid())
            {
                return false;
            }
            return location(loc).first.rfind(prefix, 0) == 0;
        }

        std::string qualifiedName(NamedDecl const* decl, bool templateArguments = false)
        {
            std::string result;
            llvm::raw_string_ostream os{result};
            std::vector<std::string> parts;
            DeclContext const* context{decl->getDeclContext()};
            std::string own;
            if (auto const* record = dyn_cast<CXXRecordDecl>(decl); record && record->isLambda())
            {
                own = "lambda@" + lambdaName(record);
            }
            else if (isa<CXXConstructorDecl>(decl))
            {
                own = cast<CXXConstructorDecl>(decl)->getParent()->getNameAsString();
            }
            else if (isa<CXXDestructorDecl>(decl))
            {
                own = "~" + cast<CXXDestructorDecl>(decl)->getParent()->getNameAsString();
            }
            else
            {
                own = decl->getNameAsString();
                if (auto const* conversion = dyn_cast<CXXConversionDecl>(decl))
                {
                    own = "operator " + typeString(conversion->getConversionType());
                }
            }
            if (templateArguments)
            {
                own += templateArgs(decl);
            }
            parts.push_back(own);
            while (context && !context->isTranslationUnit())
            {
                if (auto const* ns = dyn_cast<NamespaceDecl>(context))
                {
                    if (!ns->isInline())
                    {
                        parts.push_back(
                            ns->isAnonymousNamespace() ? "(anonymous)" : ns->getNameAsString());
                    }
                }
                else if (auto const* record = dyn_cast<CXXRecordDecl>(context))
                {
                    std::string name{record->isLambda() ? "lambda@" + lambdaName(record) : record->getNameAsString()};
                    if (templateArguments)
                    {
                        name += templateArgs(record);
                    }
                    parts.push_back(name);
                }
                else if (auto const* en = dyn_cast<EnumDecl>(context))
                {
                    if (en->isScoped())
                    {
                        parts.push_back(en->getNameAsString());
                    }
                    else
                    {
                        parts.push_back(en->getNameAsString().empty() ? "(enum)" : en->getNameAsString());
                    }
                }
                else if (auto const* function = dyn_cast<FunctionDecl>(context))
                {
                    parts.push_back(
                        function->getNameAsString() + (templateArguments ? templateArgs(function) : std::string{}) + "()");
                }
                context = context->getParent();
            }
            for (auto it = parts.rbegin(); it != parts.rend(); ++it)
            {
                if (it != parts.rbegin())
                {
                    os << "::";
                }
                os << *it;
            }
            return os.str();
        }

        std::string lambdaName(CXXRecordDecl const* record)
        {
            auto [file, ln] = location(record->getLocation());
            std::string base{file};
            if (base.rfind(prefix, 0) == 0)
            {
                base = base.substr(prefix.size());
            }
            return base + ":" + std::to_string(ln) + ":" +
                   std::to_string(sm.getExpansionColumnNumber(record->getLocation())) +
                   (record->getLocation().isMacroID()
                        ? "#" + std::to_string(lambdaOrdinal(record))
                        : std::string{});
        }

        unsigned lambdaOrdinal(CXXRecordDecl const* record)
        {
            auto it = ordinals.find(record);
            if (it == ordinals.end())
            {
                it = ordinals.emplace(record, ordinals.size()).first;
            }
            return it->second;
        }

        std::string templateArgs(Decl const* decl)
        {
            TemplateArgumentList const* args{nullptr};
            if (auto const* function = dyn_cast<FunctionDecl>(decl))
            {
                args = function->getTemplateSpecializationArgs();
            }
            else if (auto const* spec = dyn_cast<ClassTemplateSpecializationDecl>(decl))
            {
                args = &spec->getTemplateArgs();
            }
            else if (auto const* spec = dyn_cast<VarTemplateSpecializationDecl>(decl))
            {
                args = &spec->getTemplateArgs();
            }
            if (!args)
            {
                return "";
            }
            std::string result{"<"};
            llvm::raw_string_ostream os{result};
            PrintingPolicy p{policy};
            p.PrintCanonicalTypes = true;
            for (unsigned i = 0; i < args->size(); ++i)
            {
                if (i)
                {
                    os << ", ";
                }
                args->get(i).print(p, os, true);
            }
            os << ">";
            return os.str();
        }

        std::string functionKey(FunctionDecl const* function)
        {
            function = function->getCanonicalDecl();
            auto it = keys.find(function);
            if (it != keys.end())
            {
                return it->second;
            }
            std::string key{qualifiedName(function, true)};
            key += "(";
            bool first{true};
            for (auto const* param : function->parameters())
            {
                if (!first)
                {
                    key += ", ";
                }
                first = false;
                key += typeString(param->getType());
            }
            key += ")";
            if (auto const* method = dyn_cast<CXXMethodDecl>(function))
            {
                if (method->isConst())
                {
                    key += " const";
                }
                if (method->getRefQualifier() == RQ_RValue)
                {
                    key += " &&";
                }
            }
            if (function->getFormalLinkage() == Linkage::Internal || function->isInAnonymousNamespace())
            {
                auto [file, ln] = location(function->getLocation());
                if (file.rfind(prefix, 0) == 0)
                {
                    key += " @" + file.substr(prefix.size());
                }
            }
            keys[function] = key;
            return key;
        }

        unsigned varId(ValueDecl const* decl)
        {
            decl = cast<ValueDecl>(decl->getCanonicalDecl());
            auto it = ids.find(decl);
            if (it == ids.end())
            {
                it = ids.emplace(decl, ids.size() + 1).first;
            }
            return it->second;
        }

        // ---------------------------------------------------------------- expressions

        Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> range)
        {
            Array result;
            for (auto const* e : range)
            {
                result.push_back(expr(e));
            }
            return result;
        }

        Value functionRef(FunctionDecl const* function)
        {
            noteFunction(function);
            return Array{"fn", qualifiedName(function), functionKey(function)};
        }

        // Short description of a callee: [qualified name, key]
        void noteFunction(FunctionDecl const* function)
        {
            std::string key{functionKey(function)};
            if (callees.count(key))
            {
                return;
            }
            json::Object o;
            o["q"] = qualifiedName(function);
            o["ret"] = typeString(function->getReturnType());
            Array params;
            for (auto const* param : function->parameters())
            {
                params.push_back(typeString(param->getType()));
            }
            o["params"] = std::move(params);
            if (auto const* method = dyn_cast<CXXMethodDecl>(function))
            {
                o["cls"] = qualifiedName(method->getParent(), true);
                o["const"] = method->isConst();
                o["static"] = method->isStatic();
                o["virtual"] = method->isVirtual();
                if (auto const* ctor = dyn_cast<CXXConstructorDecl>(method))
                {
                    o["ctor"] = true;
                    o["copymove"] = ctor->isCopyOrMoveConstructor();
                    o["defaulted"] = ctor->isDefaulted();
                }
            }
            if (function->isNoReturn())
            {
                o["noreturn"] = true;
            }
            o["inrepo"] = inScope(function->getLocation());
            callees.insert_or_assign(key, Value(std::move(o)));
        }

        Value call(FunctionDecl const* function, Value object, Array args, SourceLocation loc, QualType type)
        {
            noteFunction(function);
            return Array{
                "call", functionKey(function), std::move(object), std::move(args), line(loc),
                qualifiedName(function), typeString(type)};
        }

        Value expr(Expr const* e)
        {
            if (!e)
            {
                return nullptr;
            }
            if (auto const* c = dyn_cast<ConstantExpr>(e))
            {
                return expr(c->getSubExpr());
            }
            if (auto const* c = dyn_cast<ExprWithCleanups>(e))
            {
                return expr(c->getSubExpr());
            }
            if (auto const* c = dyn_cast<ParenExpr>(e))
            {
                return expr(c->getSubExpr());
            }
            if (auto const* c = dyn_cast<MaterializeTemporaryExpr>(e))
            {
                return expr(c->getSubExpr());
            }
            if (auto const* c = dyn_cast<CXXBindTemporaryExpr>(e))
            {
                return expr(c->getSubExpr());
            }
            if (auto const* c = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
            {
                return expr(c->getReplacement());
            }
            if (auto const* c = dyn_cast<CXXStdInitializerListExpr>(e))
            {
                return expr(c->getSubExpr());
            }
            if (auto const* c = dyn_cast<CXXDefaultArgExpr>(e))
            {
                return Array{"defarg", expr(c->getExpr())};
            }
            if (auto const* c = dyn_cast<CXXDefaultInitExpr>(e))
            {
                return expr(c->getExpr());
            }
            if (auto const* c = dyn_cast<CXXRewrittenBinaryOperator>(e))
            {
                return expr(c->getSemanticForm());
            }
            if (auto const* c = dyn_cast<ImplicitCastExpr>(e))
            {
                switch (c->getCastKind())
                {
                    case CK_PointerToBoolean:
                    case CK_MemberPointerToBoolean:
                    {
                        return Array{"tobool", "p", expr(c->getSubExpr())};
                    }
                    case CK_IntegralToBoolean:
                    {
                        return Array{"tobool", "i", expr(c->getSubExpr())};
                    }
                    case CK_NullToPointer:
                    {
                        return Array{"null"};
                    }
                    default:
                    {
                        return expr(c->getSubExpr());
                    }
                }
            }
            if (auto const* c = dyn_cast<ExplicitCastExpr>(e))
            {
                if (auto const* f = dyn_cast<CXXFunctionalCastExpr>(e))
                {
                    // T(x): construction or arithmetic cast
                    Expr const* sub{f->getSubExpr()};
                    return Array{"cast", typeString(e->getType()), expr(sub)};
                }
                switch (c->getCastKind())
                {
                    case CK_PointerToBoolean:
                    {
                        return Array{"tobool", "p", expr(c->getSubExpr())};
                    }
                    case CK_IntegralToBoolean:
                    {
                        return Array{"tobool", "i", expr(c->getSubExpr())};
                    }
                    case CK_NullToPointer:
                    {
                        return Array{"null"};
                    }
                    default:
                    {
                        return Array{"cast", typeString(e->getType()), expr(c->getSubExpr())};
                    }
                }
            }
            if (auto const* c = dyn_cast<IntegerLiteral>(e))
            {
                llvm::SmallString<32> s;
                c->getValue().toString(s, 10, c->getType()->isSignedIntegerType());
                return Array{"int", std::string{s.str()}};
            }
            if (auto const* c = dyn_cast<CharacterLiteral>(e))
            {
                return Array{"int", std::to_string(c->getValue())};
            }
            if (auto const* c = dyn_cast<FloatingLiteral>(e))
            {
                llvm::SmallString<32> s;
                c->getValue().toString(s);
                return Array{"float", std::string{s.str()}};
            }
            if (auto const* c = dyn_cast<clang::StringLiteral>(e))
            {
                if (c->getCharByteWidth() == 1)
                {
                    std::string s{c->getString().str()};
                    return Array{"str", json::isUTF8(s) ? s : json::fixUTF8(s)};
                }
                return Array{"str", "<wide>"};
            }
            if (auto const* c = dyn_cast<CXXBoolLiteralExpr>(e))
            {
                return Array{"bool", c->getValue()};
            }
            if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
            {
                return Array{"null"};
            }
            if (isa<CXXThisExpr>(e))
            {
                return Array{"this"};
            }
            if (auto const* c = dyn_cast<PredefinedExpr>(e))
            {
                return Array{"str", "<predefined>"};
            }
            if (auto const* c = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
            {
                Expr::EvalResult result;
                if (!c->isValueDependent() && c->EvaluateAsInt(result, ctx))
                {
                    llvm::SmallString<32> s;
                    result.Val.getInt().toString(s, 10);
                    return Array{
                        "sizeof", std::string{s.str()}, typeString(c->getTypeOfArgument())};
                }
                return Array{"?", "sizeof", Array{}};
            }
            if (auto const* c = dyn_cast<DeclRefExpr>(e))
            {
                return declRef(c->getDecl());
            }
            if (auto const* c = dyn_cast<MemberExpr>(e))
            {
                if (auto const* field = dyn_cast<FieldDecl>(c->getMemberDecl()))
                {
                    return Array{
                        "mem", expr(c->getBase()), field->getNameAsString(),
                        qualifiedName(field->getParent()), c->isArrow()};
                }
                if (auto const* method = dyn_cast<CXXMethodDecl>(c->getMemberDecl()))
                {
                    return functionRef(method);
                }
                return declRef(c->getMemberDecl());
            }
            if (auto const* c = dyn_cast<CXXMemberCallExpr>(e))
            {
                if (auto const* method = c->getMethodDecl())
                {
                    Expr const* object{c->getImplicitObjectArgument()};
                    bool arrow{false};
                    if (auto const* member = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens()))
                    {
                        arrow = member->isArrow();
                    }
                    Value o(expr(object));
                    if (arrow && object && !isa<CXXThisExpr>(object->IgnoreImpCasts()))
                    {
                        o = Array{"un", "*", std::move(o)};
                    }
                    return call(method, std::move(o), exprs(c->arguments()), e->getExprLoc(), e->getType());
                }
                Array args(exprs(c->arguments()));
                return Array{"icall", expr(c->getCallee()), std::move(args), line(e->getExprLoc())};
            }
            if (auto const* c = dyn_cast<CXXOperatorCallExpr>(e))
            {
                if (auto const* function = dyn_cast_or_null<FunctionDecl>(c->getCalleeDecl()))
                {
                    Array args(exprs(c->arguments()));
                    if (isa<CXXMethodDecl>(function) && !cast<CXXMethodDecl>(function)->isStatic() && !args.empty())
                    {
                        Value object(std::move(args[0]));
                        Array rest;
                        for (std::size_t i = 1; i < args.size(); ++i)
                        {
                            rest.push_back(std::move(args[i]));
                        }
                        return call(
                            function, std::move(object), std::move(rest), e->getExprLoc(), e->getType());
                    }
                    return call(function, nullptr, std::move(args), e->getExprLoc(), e->getType());
                }
            }
            if (auto const* c = dyn_cast<UserDefinedLiteral>(e))
            {
                if (auto const* function = dyn_cast_or_null<FunctionDecl>(c->getCalleeDecl()))
                {
                    return call(
                        function, nullptr, exprs(c->arguments()), e->getExprLoc(), e->getType());
                }
            }
            if (auto const* c = dyn_cast<CallExpr>(e))
            {
                if (auto const* function = dyn_cast_or_null<FunctionDecl>(c->getCalleeDecl()))
                {
                    return call(
                        function, nullptr, exprs(c->arguments()), e->getExprLoc(), e->getType());
                }
                if (isa<CXXPseudoDestructorExpr>(c->getCallee()->IgnoreParens()))
                {
                    return Array{"int", "0"};
                }
                return Array{
                    "icall", expr(c->getCallee()), exprs(c->arguments()), line(e->getExprLoc())};
            }
            if (auto const* c = dyn_cast<CXXConstructExpr>(e))
            {
                auto const* ctor = c->getConstructor();
                noteFunction(ctor);
                Array args(exprs(c->arguments()));
                return Array{
                    "ctor", functionKey(ctor), typeString(e->getType()), std::move(args),
                    line(e->getExprLoc()), ctor->isCopyOrMoveConstructor(), c->isListInitialization()};
            }
            if (auto const* c = dyn_cast<CXXInheritedCtorInitExpr>(e))
            {
                return Array{"inherited", functionKey(c->getConstructor()), typeString(e->getType())};
            }
            if (auto const* c = dyn_cast<CXXScalarValueInitExpr>(e))
            {
                return Array{"int", "0"};
            }
            if (auto const* c = dyn_cast<ImplicitValueInitExpr>(e))
            {
                return Array{"zero", typeString(e->getType())};
            }
            if (auto const* c = dyn_cast<InitListExpr>(e))
            {
                if (c->isSemanticForm() == false && c->getSemanticForm())
                {
                    c = c->getSemanticForm();
                }
                // {x} that binds a reference
                if (e->isGLValue() && c->getNumInits() == 1)
                {
                    return expr(c->getInit(0));
                }
                // {x} for a scalar
                if (!e->getType()->isRecordType() && !e->getType()->isArrayType() && c->getNumInits() == 1)
                {
                    return expr(c->getInit(0));
                }
                if (!e->getType()->isRecordType() && !e->getType()->isArrayType() && c->getNumInits() == 0)
                {
                    return Array{"zero", typeString(e->getType())};
                }
                Array result;
                for (auto const* init : c->inits())
                {
                    result.push_back(expr(init));
                }
                return Array{"init", typeString(e->getType()), std::move(result)};
            }
            if (auto const* c = dyn_cast<BinaryOperator>(e))
            {
                std::string op{c->getOpcodeStr().str()};
                if (c->isAssignmentOp())
                {
                    return Array{"assign", op, expr(c->getLHS()), expr(c->getRHS()), line(e->getExprLoc())};
                }
                return Array{"bin", op, expr(c->getLHS()), expr(c->getRHS())};
            }
            if (auto const* c = dyn_cast<UnaryOperator>(e))
            {
                std::string op{UnaryOperator::getOpcodeStr(c->getOpcode()).str()};
                if (c->isPostfix())
                {
                    op = "p" + op;
                }
                if (c->getOpcode() == UO_AddrOf)
                {
                    if (auto const* ref = dyn_cast<DeclRefExpr>(c->getSubExpr()->IgnoreParens()))
                    {
                        if (auto const* function = dyn_cast<FunctionDecl>(ref->getDecl()))
                        {
                            return functionRef(function);
                        }
                        if (auto const* field = dyn_cast<FieldDecl>(ref->getDecl()))
                        {
                            return Array{"fieldptr", qualifiedName(field)};
                        }
                    }
                }
                return Array{"un", op, expr(c->getSubExpr())};
            }
            if (auto const* c = dyn_cast<ConditionalOperator>(e))
            {
                return Array{"cond", expr(c->getCond()), expr(c->getTrueExpr()), expr(c->getFalseExpr())};
            }
            if (auto const* c = dyn_cast<ArraySubscriptExpr>(e))
            {
                return Array{"idx", expr(c->getBase()), expr(c->getIdx())};
            }
            if (auto const* c = dyn_cast<CXXThrowExpr>(e))
            {
                return Array{
                    "throw", c->getSubExpr() ? Value(expr(c->getSubExpr())) : Value(nullptr),
                    c->getSubExpr() ? typeString(c->getSubExpr()->getType()) : std::string{},
                    line(e->getExprLoc())};
            }
            if (auto const* c = dyn_cast<CXXNewExpr>(e))
            {
                return Array{
                    "new", typeString(c->getAllocatedType()),
                    c->getInitializer() ? expr(c->getInitializer()) : Value(nullptr), c->isArray(),
                    line(e->getExprLoc())};
            }
            if (auto const* c = dyn_cast<CXXDeleteExpr>(e))
            {
                return Array{"delete", expr(c->getArgument())};
            }
            if (auto const* c = dyn_cast<CXXParenListInitExpr>(e))
            {
                Array result;
                for (auto const* init : c->getInitExprs())
                {
                    result.push_back(expr(init));
                }
                return Array{"init", typeString(e->getType()), std::move(result)};
            }
            if (auto const* c = dyn_cast<LambdaExpr>(e))
            {
                CXXRecordDecl const* record{c->getLambdaClass()};
                Array captures;
                auto init = c->capture_init_begin();
                for (auto const& capture : c->captures())
                {
                    if (capture.capturesVariable())
                    {
                        captures.push_back(Array{
                            capture.getCapturedVar()->getNameAsString(),
                            varId(capture.getCapturedVar()), capture.getCaptureKind() == LCK_ByRef,
                            expr(*init)});
                    }
                    else if (capture.capturesThis())
                    {
                        captures.push_back(Array{"this", 0, true, Array{"this"}});
                    }
                    ++init;
                }
                CXXMethodDecl const* op{c->getCallOperator()};
                std::string key{op ? functionKey(op) : std::string{}};
                if (c->isGenericLambda())
                {
                    key = "generic";
                }
                return Array{"lambda", qualifiedName(record), key, std::move(captures), line(e->getExprLoc())};
            }
            if (auto const* c = dyn_cast<StmtExpr>(e))
            {
                return Array{"stmtexpr", stmt(c->getSubStmt())};
            }
            if (auto const* c = dyn_cast<CXXTypeidExpr>(e))
            {
                return Array{"typeid", c->isTypeOperand() ? typeString(c->getTypeOperand(ctx)) : std::string{}};
            }
            if (auto const* c = dyn_cast<OpaqueValueExpr>(e))
            {
                return expr(c->getSourceExpr());
            }
            if (auto const* c = dyn_cast<ArrayInitLoopExpr>(e))
            {
                return expr(c->getCommonExpr());
            }
            Expr::EvalResult result;
            if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType() &&
                e->EvaluateAsInt(result, ctx))
            {
                llvm::SmallString<32> s;
                result.Val.getInt().toString(s, 10);
                return Array{"int", std::string{s.str()}};
            }
            Array children;
            for (auto const* child : e->children())
            {
                if (auto const* ce = dyn_cast_or_null<Expr>(child))
                {
                    children.push_back(expr(ce));
                }
            }
            return Array{"?", e->getStmtClassName(), std::move(children)};
        }

        Value declRef(ValueDecl const* decl)
        {
            if (auto const* function = dyn_cast<FunctionDecl>(decl))
            {
                return functionRef(function);
            }
            if (auto const* constant = dyn_cast<EnumConstantDecl>(decl))
            {
                llvm::SmallString<32> s;
                constant->getInitVal().toString(s, 10);
                return Array{"enum", qualifiedName(constant), std::string{s.str()}};
            }
            if (auto const* param = dyn_cast<ParmVarDecl>(decl))
            {
                return Array{"var", param->getNameAsString(), varId(param)};
            }
            if (auto const* var = dyn_cast<VarDecl>(decl))
            {
                if (var->isLocalVarDecl())
                {
                    return Array{"var", var->getNameAsString(), varId(var)};
                }
                noteGlobal(var);
                return Array{"glob", qualifiedName(var, true)};
            }
            if (auto const* binding = dyn_cast<BindingDecl>(decl))
            {
                return Array{"var", binding->getNameAsString(), varId(binding)};
            }
            if (auto const* field = dyn_cast<FieldDecl>(decl))
            {
                return Array{"fieldptr", qualifiedName(field)};
            }
            return Array{"?", "declref", Array{}};
        }

        void noteGlobal(VarDecl const* var)
        {
            std::string name{qualifiedName(var, true)};
            if (globals.count(name))
            {
                return;
            }
            globals.insert_or_assign(name, Value(nullptr));
            VarDecl const* definition{nullptr};
            Expr const* init{var->getAnyInitializer(definition)};
            json::Object o;
            o["type"] = typeString(var->getType());
            o["inrepo"] = inScope(var->getLocation());
            auto [file, ln] = location(var->getLocation());
            o["file"] = file;
            o["line"] = ln;
            if (init && definition && inScope(var->getLocation()) && !init->isValueDependent())
            {
                o["init"] = expr(init);
            }
            globals.insert_or_assign(name, Value(std::move(o)));
        }

        // ---------------------------------------------------------------- statements

        Value decls(DeclStmt const* s)
        {
            Array result;
            for (auto const* d : s->decls())
            {
                if (auto const* dec = dyn_cast<DecompositionDecl>(d))
                {
                    Array bindings;
                    for (auto const* b : dec->bindings())
                    {
                        bindings.push_back(Array{b->getNameAsString(), varId(b)});
                    }
                    result.push_back(Array{
                        "bind", std::move(bindings), varId(dec), typeString(dec->getType()),
                        dec->getInit() ? expr(dec->getInit()) : Value(nullptr), line(dec->getLocation())});
                }
                else if (auto const* var = dyn_cast<VarDecl>(d))
                {
                    result.push_back(Array{
                        "v", var->getNameAsString(), varId(var), typeString(var->getType()),
                        var->getInit() ? expr(var->getInit()) : Value(nullptr), line(var->getLocation()),
                        var->isStaticLocal()});
                }
            }
            return Array{"decl", std::move(result)};
        }

        Value switchBody(Stmt const* body)
        {
            // [[labels...], [stmts...]] groups in order; labels: ["case", expr] or ["default"]
            Array groups;
            Array labels;
            Array statements;
            bool open{false};
            auto flush = [&]()
            {
                if (open)
                {
                    groups.push_back(Array{std::move(labels), std::move(statements)});
                    labels = Array{};
                    statements = Array{};
                    open = false;
                }
            };
            std::vector<Stmt const*> children;
            if (auto const* compound = dyn_cast<CompoundStmt>(body))
            {
                for (auto const* child : compound->body())
                {
                    children.push_back(child);
                }
            }
            else
            {
                children.push_back(body);
            }
            for (auto const* child : children)
            {
                Stmt const* s{child};
                if (isa<SwitchCase>(s))
                {
                    flush();
                    open = true;
                    while (auto const* sc = dyn_cast_or_null<SwitchCase>(s))
                    {
                        if (auto const* c = dyn_cast<CaseStmt>(sc))
                        {
                            labels.push_back(Array{"case", expr(c->getLHS())});
                        }
                        else
                        {
                            labels.push_back(Array{"default"});
                        }
                        s = sc->getSubStmt();
                    }
                }
                if (s)
                {
                    if (!open)
                    {
                        open = true;
                    }
                    statements.push_back(stmt(s));
                }
            }
            flush();
            return groups;
        }

        Value stmt(Stmt const* s)
        {
            if (!s)
            {
                return nullptr;
            }
            if (auto const* c = dyn_cast<CompoundStmt>(s))
            {
                Array result;
                for (auto const* child : c->body())
                {
                    result.push_back(stmt(child));
                }
                return Array{"{", std::move(result)};
            }
            if (auto const* c = dyn_cast<DeclStmt>(s))
            {
                return decls(c);
            }
            if (auto const* c = dyn_cast<IfStmt>(s))
            {
                if (c->isConstexpr() && !c->getCond()->isValueDependent())
                {
                    Expr::EvalResult r;
                    bool value{};
                    if (c->getCond()->EvaluateAsBooleanCondition(value, ctx))
                    {
                        Stmt const* taken{value ? c->getThen() : c->getElse()};
                        Array block;
                        if (c->getInit())
                        {
                            block.push_back(stmt(c->getInit()));
                        }
                        if (taken)
                        {
                            block.push_back(stmt(taken));
                        }
                        return Array{"{", std::move(block)};
                    }
                }
                return Array{
                    "if", c->getInit() ? stmt(c->getInit()) : Value(nullptr),
                    c->getConditionVariableDeclStmt() ? decls(c->getConditionVariableDeclStmt())
                                                      : Value(nullptr),
                    expr(c->getCond()), stmt(c->getThen()), c->getElse() ? stmt(c->getElse()) : Value(nullptr),
                    line(c->getIfLoc())};
            }
            if (auto const* c = dyn_cast<SwitchStmt>(s))
            {
                return Array{
                    "switch", c->getInit() ? stmt(c->getInit()) : Value(nullptr),
                    c->getConditionVariableDeclStmt() ? decls(c->getConditionVariableDeclStmt())
                                                      : Value(nullptr),
                    expr(c->getCond()), switchBody(c->getBody()), line(c->getSwitchLoc()),
                    typeString(c->getCond()->IgnoreParenImpCasts()->getType())};
            }
            if (auto const* c = dyn_cast<ForStmt>(s))
            {
                return Array{
                    "for", c->getInit() ? stmt(c->getInit()) : Value(nullptr),
                    c->getCond() ? expr(c->getCond()) : Value(nullptr),
                    c->getInc() ? expr(c->getInc()) : Value(nullptr), stmt(c->getBody()),
                    line(c->getForLoc())};
            }
            if (auto const* c = dyn_cast<CXXForRangeStmt>(s))
            {
                VarDecl const* var{c->getLoopVariable()};
                Value name(nullptr);
                if (auto const* dec = dyn_cast<DecompositionDecl>(var))
                {
                    Array bindings;
                    for (auto const* b : dec->bindings())
                    {
                        bindings.push_back(Array{b->getNameAsString(), varId(b)});
                    }
                    name = Array{"bind", std::move(bindings), varId(dec), typeString(dec->getType())};
                }
                else
                {
                    name = Array{"v", var->getNameAsString(), varId(var), typeString(var->getType())};
                }
                return Array{
                    "range", std::move(name), expr(c->getRangeInit()), stmt(c->getBody()), line(c->getForLoc())};
            }
            if (auto const* c = dyn_cast<WhileStmt>(s))
            {
                return Array{
                    "while",
                    c->getConditionVariableDeclStmt() ? decls(c->getConditionVariableDeclStmt())
                                                      : Value(nullptr),
                    expr(c->getCond()), stmt(c->getBody()), line(c->getWhileLoc())};
            }
            if (auto const* c = dyn_cast<DoStmt>(s))
            {
                return Array{"do", expr(c->getCond()), stmt(c->getBody()), line(c->getDoLoc())};
            }
            if (auto const* c = dyn_cast<ReturnStmt>(s))
            {
                return Array{
                    "ret", c->getRetValue() ? expr(c->getRetValue()) : Value(nullptr),
                    line(c->getReturnLoc())};
            }
            if (auto const* c = dyn_cast<CXXTryStmt>(s))
            {
                Array handlers;
                for (unsigned i = 0; i < c->getNumHandlers(); ++i)
                {
                    CXXCatchStmt const* h{c->getHandler(i)};
                    handlers.push_back(Array{
                        h->getCaughtType().isNull() ? std::string{"..."} : typeString(h->getCaughtType()),
                        h->getExceptionDecl() ? Value(Array{
                                                    h->getExceptionDecl()->getNameAsString(),
                                                    varId(h->getExceptionDecl())})
                                              : Value(nullptr),
                        stmt(h->getHandlerBlock())});
                }
                return Array{"try", stmt(c->getTryBlock()), std::move(handlers), line(c->getTryLoc())};
            }
            if (isa<BreakStmt>(s))
            {
                return Array{"break"};
            }
            if (isa<ContinueStmt>(s))
            {
                return Array{"cont"};
            }
            if (isa<NullStmt>(s))
            {
                return Array{"{", Array{}};
            }
            if (auto const* c = dyn_cast<AttributedStmt>(s))
            {
                return stmt(c->getSubStmt());
            }
            if (auto const* c = dyn_cast<LabelStmt>(s))
            {
                return stmt(c->getSubStmt());
            }
            if (auto const* c = dyn_cast<SwitchCase>(s))
            {
                return stmt(c->getSubStmt());
            }
            if (auto const* e = dyn_cast<Expr>(s))
            {
                return Array{"expr", expr(e), line(e->getExprLoc())};
            }
            return Array{"?s", s->getStmtClassName()};
        }

        // ---------------------------------------------------------------- declarations

        void function(FunctionDecl const* f)
        {
            if (!f->doesThisDeclarationHaveABody() || f->isDependentContext())
            {
                if (!(f->isDefaulted() || f->isDeleted()))
                {
                    return;
                }
            }
            if (f->isDependentContext())
            {
                return;
            }
            if (!inScope(f->getLocation()))
            {
                return;
            }
            std::string key{functionKey(f)};
            if (functions.count(key))
            {
                return;
            }
            functions.insert_or_assign(key, Value(nullptr));
            json::Object o;
            o["q"] = qualifiedName(f);
            auto [file, ln] = location(f->getLocation());
            o["file"] = file;
            o["line"] = ln;
            o["end"] = line(f->getEndLoc());
            o["ret"] = typeString(f->getReturnType());
            Array params;
            for (auto const* param : f->parameters())
            {
                params.push_back(Array{
                    param->getNameAsString(), varId(param), typeString(param->getType())});
            }
            o["params"] = std::move(params);
            Array defaults;
            for (unsigned i = 0; i < f->getNumParams(); ++i)
            {
                auto const* param = f->getParamDecl(i);
                if (param->hasDefaultArg() && !param->hasUnparsedDefaultArg() && !param->hasUninstantiatedDefaultArg())
                {
                    defaults.push_back(Array{static_cast<int64_t>(i), expr(param->getDefaultArg())});
                }
            }
            if (!defaults.empty())
            {
                o["defaults"] = std::move(defaults);
            }
            if (f->isTemplateInstantiation())
            {
                o["tmpl"] = true;
            }
            if (f->isDeleted())
            {
                o["deleted"] = true;
            }
            if (f->isDefaulted())
            {
                o["defaulted"] = true;
            }
            if (f->isImplicit())
            {
                o["implicit"] = true;
            }
            if (auto const* method = dyn_cast<CXXMethodDecl>(f))
            {
                o["cls"] = qualifiedName(method->getParent(), true);
                o["const"] = method->isConst();
                o["static"] = method->isStatic();
                o["access"] = method->getAccess() == AS_public ? "public"
                              : method->getAccess() == AS_protected ? "protected"
                                                                    : "private";
                if (method->getParent()->isLambda())
                {
                    o["lambda"] = true;
                }
            }
            if (auto const* ctor = dyn_cast<CXXConstructorDecl>(f))
            {
                o["ctor"] = true;
                o["copymove"] = ctor->isCopyOrMoveConstructor();
                Array inits;
                for (auto const* init : ctor->inits())
                {
                    if (init->isAnyMemberInitializer())
                    {
                        inits.push_back(
                            Array{"f", init->getAnyMember()->getNameAsString(), expr(init->getInit())});
                    }
                    else if (init->isDelegatingInitializer())
                    {
                        inits.push_back(Array{"d", "", expr(init->getInit())});
                    }
                    else
                    {
                        inits.push_back(Array{
                            "b", typeString(QualType(init->getBaseClass(), 0)), expr(init->getInit())});
                    }
                }
                o["inits"] = std::move(inits);
            }
            if (isa<CXXDestructorDecl>(f))
            {
                o["dtor"] = true;
            }
            if (f->getTemplateSpecializationKind() == TSK_ExplicitSpecialization)
            {
                o["spec"] = true;
            }
            o["targs"] = templateArgs(f);
            if (f->doesThisDeclarationHaveABody() && f->getBody())
            {
                o["body"] = stmt(f->getBody());
            }
            functions.insert_or_assign(key, Value(std::move(o)));
        }

        void record(CXXRecordDecl const* r)
        {
            if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda())
            {
                return;
            }
            if (!inScope(r->getLocation()))
            {
                return;
            }
            std::string name{qualifiedName(r, true)};
            if (classes.count(name))
            {
                return;
            }
            json::Object o;
            auto [file, ln] = location(r->getLocation());
            o["file"] = file;
            o["line"] = ln;
            Array bases;
            for (auto const& base : r->bases())
            {
                bases.push_back(typeString(base.getType()));
            }
            o["bases"] = std::move(bases);
            Array fields;
            for (auto const* field : r->fields())
            {
                fields.push_back(Array{
                    field->getNameAsString(), typeString(field->getType()),
                    field->hasInClassInitializer() && field->getInClassInitializer() &&
                            !field->getInClassInitializer()->isValueDependent()
                        ? expr(field->getInClassInitializer())
                        : Value(nullptr)});
            }
            o["fields"] = std::move(fields);
            Array methods;
            for (auto const* method : r->methods())
            {
                Array m{
                    functionKey(method), qualifiedName(method),
                    method->getAccess() == AS_public ? "public"
                    : method->getAccess() == AS_protected ? "protected"
                                                          : "private",
                    method->isConst(), method->isStatic(), method->isDeleted(), method->isDefaulted(),
                    method->isImplicit(), typeString(method->getReturnType())};
                methods.push_back(std::move(m));
            }
            o["methods"] = std::move(methods);
            Array types;
            for (auto const* d : r->decls())
            {
                if (auto const* alias = dyn_cast<TypedefNameDecl>(d))
                {
                    types.push_back(Array{alias->getNameAsString(), typeString(alias->getUnderlyingType())});
                }
                if (auto const* var = dyn_cast<VarDecl>(d))
                {
                    noteGlobal(var);
                }
            }
            o["types"] = std::move(types);
            classes.insert_or_assign(name, Value(std::move(o)));
        }

        void enumeration(EnumDecl const* e)
        {
            if (!e->isThisDeclarationADefinition() || e->isDependentContext() || !inScope(e->getLocation()))
            {
                return;
            }
            json::Object o;
            auto [file, ln] = location(e->getLocation());
            o["file"] = file;
            o["line"] = ln;
            Array constants;
            for (auto const* c : e->enumerators())
            {
                llvm::SmallString<32> s;
                c->getInitVal().toString(s, 10);
                constants.push_back(Array{c->getNameAsString(), qualifiedName(c), std::string{s.str()}});
            }
            o["values"] = std::move(constants);
            enums.insert_or_assign(qualifiedName(e), Value(std::move(o)));
        }

        void global(VarDecl const* v)
        {
            if (v->isLocalVarDeclOrParm() || !inScope(v->getLocation()) || v->getDeclContext()->isDependentContext() ||
                v->getDescribedVarTemplate())
            {
                return;
            }
            noteGlobal(v);
        }

        Value finish()
        {
            json::Object o;
            json::Object f, c, g, e, k;
            for (auto& [key, value] : functions)
            {
                if (value != Value(nullptr))
                {
                    f[key] = std::move(value);
                }
            }
            for (auto& [key, value] : classes)
            {
                c[key] = std::move(value);
            }
            for (auto& [key, value] : globals)
            {
                g[key] = std::move(value);
            }
            for (auto& [key, value] : enums)
            {
                e[key] = std::move(value);
            }
            for (auto& [key, value] : callees)
            {
                k[key] = std::move(value);
            }
            o["functions"] = std::move(f);
            o["classes"] = std::move(c);
            o["globals"] = std::move(g);
            o["enums"] = std::move(e);
            o["callees"] = std::move(k);
            return Value(std::move(o));
        }

        ASTContext& ctx;

    private:

        SourceManager& sm;
        PrintingPolicy policy;
        std::map<std::string, std::string> realNames;
        std::map<FunctionDecl const*, std::string> keys;
        std::map<ValueDecl const*, unsigned> ids;
        std::map<CXXRecordDecl const*, unsigned> ordinals;
        std::map<std::string, Value> functions;
        std::map<std::string, Value> classes;
        std::map<std::string, Value> globals;
        std::map<std::string, Value> enums;
        std::map<std::string, Value> callees;
};

class Visitor: public RecursiveASTVisitor<Visitor>
{
    public:

        explicit Visitor(Emitter& emitter): emitter{emitter}
        {
        }

        bool shouldVisitTemplateInstantiations() const
        {
            return true;
        }

        bool shouldVisitImplicitCode() const
        {
            return true;
        }

        bool shouldVisitLambdaBody() const
        {
            return true;
        }

        bool TraverseDecl(Decl* decl)
        {
            // System headers only matter as callees
            if (decl && !isa<TranslationUnitDecl>(decl) && !isa<NamespaceDecl>(decl) &&
                !isa<LinkageSpecDecl>(decl) && !isa<TemplateDecl>(decl) &&
                !isa<ClassTemplateSpecializationDecl>(decl) && decl->getLocation().isValid() &&
                decl->getLexicalDeclContext()->isFileContext() && !emitter.inScope(decl->getLocation()))
            {
                return true;
            }
            return RecursiveASTVisitor<Visitor>::TraverseDecl(decl);
        }

        bool VisitFunctionDecl(FunctionDecl* f)
        {
            emitter.function(f);
            return true;
        }

        bool VisitLambdaExpr(LambdaExpr* e)
        {
            if (e->isGenericLambda())
            {
                if (auto* t = e->getLambdaClass()->getDependentLambdaCallOperator())
                {
                    for (auto* s : t->specializations())
                    {
                        emitter.function(s);
                        TraverseStmt(s->getBody());
                    }
                }
            }
            else if (e->getCallOperator())
            {
                emitter.function(e->getCallOperator());
            }
            return true;
        }

        bool VisitCXXRecordDecl(CXXRecordDecl* r)
        {
            emitter.record(r);
            return true;
        }

        bool VisitEnumDecl(EnumDecl* e)
        {
            emitter.enumeration(e);
            return true;
        }

        bool VisitVarDecl(VarDecl* v)
        {
            emitter.global(v);
            return true;
        }

    private:

        Emitter& emitter;
};

class Consumer: public ASTConsumer
{
    public:

        void HandleTranslationUnit(ASTContext& ctx) override
        {
            if (ctx.getDiagnostics().hasErrorOccurred())
            {
                llvm::errs() << "errors in translation unit\n";
                return;
            }
            Emitter emitter{ctx};
            Visitor visitor{emitter};
            visitor.TraverseDecl(ctx.getTranslationUnitDecl());
            std::error_code ec;
            llvm::raw_fd_ostream os{outPath, ec};
            os << emitter.finish();
        }
};

class Action: public ASTFrontendAction
{
    public:

        std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override
        {
            return std::make_unique<Consumer>();
        }
};

}  // namespace

int main(int argc, char const** argv)
{
    // lue_extract <prefix> <out> <file> -- flags...
    if (argc < 5)
    {
        llvm::errs() << "usage: lue_extract prefix out file -- flags\n";
        return 2;
    }
    prefix = argv[1];
    outPath = argv[2];
    std::string file{argv[3]};
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i)
    {
        flags.emplace_back(argv[i]);
    }
    tooling::FixedCompilationDatabase db{".", flags};
    tooling::ClangTool tool{db, {file}};
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}

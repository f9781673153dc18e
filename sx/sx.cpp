// sx: resolved-syntax extractor.  Parses one translation unit with clang and writes, as JSON, every function
// definition (templates: every instantiation) and every record located under the given root directories, with all
// names, overloads, conversions, implicit calls and types resolved.  The analyses in /verif/vf work on this output.
//   sx OUT.json ROOT[:ROOT...] FILE.cpp -- clang args
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprConcepts.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;
static std::string g_out;

struct Dumper
{
    ASTContext & C;
    SourceManager & SM;
    PrintingPolicy PP;
    std::unique_ptr<MangleContext> MC;
    std::string tu;
    json::Array types, funcs, records;
    std::map<std::string, int> typeIdx;
    std::map<const FunctionDecl *, int> funcIdx;
    std::map<const RecordDecl *, int> recIdx;
    std::map<const Decl *, int> declIds;
    std::deque<const FunctionDecl *> work;
    std::set<const FunctionDecl *> queued;
    std::vector<const FunctionDecl *> fdecls;
    json::Object globals;

    Dumper( ASTContext & C ) : C( C ), SM( C.getSourceManager() ), PP( C.getLangOpts() ), MC( C.createMangleContext() )
    {
        PP.SuppressUnwrittenScope = true;
        PP.FullyQualifiedName     = true;
        PP.PrintCanonicalTypes    = true;
        PP.SuppressTagKeyword     = true;
        PP.Bool                   = true;
        PP.SuppressInlineNamespace = true;
    }

    std::string fileOf( SourceLocation L )
    {
        L = SM.getExpansionLoc( L );
        if( L.isInvalid() )
            return "";
        auto F = SM.getFileEntryRefForID( SM.getFileID( L ) );
        if( !F )
            return "";
        llvm::SmallString<256> p( F->getFileEntry().tryGetRealPathName() );
        return std::string( p );
    }
    int lineOf( SourceLocation L )
    {
        L = SM.getExpansionLoc( L );
        return L.isInvalid() ? 0 : (int)SM.getSpellingLineNumber( L );
    }
    bool inRoots( SourceLocation L )
    {
        auto f = fileOf( L );
        for( auto & r : g_roots )
            if( f.size() > r.size() && f.compare( 0, r.size(), r ) == 0 && f[r.size()] == '/' )
                return true;
        return false;
    }
    int declId( const Decl * D )
    {
        D       = D->getCanonicalDecl();
        auto it = declIds.find( D );
        if( it != declIds.end() )
            return it->second;
        int id = (int)declIds.size() + 1;
        declIds[D] = id;
        return id;
    }

    std::string qname( const NamedDecl * D )
    {
        std::string s;
        llvm::raw_string_ostream os( s );
        PrintingPolicy P2 = PP;
        D->printQualifiedName( os, P2 );
        os.flush();
        return s;
    }

    // ---- types
    int type( QualType T )
    {
        T = T.getCanonicalType();
        std::string s = T.getAsString( PP );
        auto it       = typeIdx.find( s );
        if( it != typeIdx.end() )
            return it->second;
        int id     = (int)types.size();
        typeIdx[s] = id;
        types.push_back( nullptr );
        json::Object o;
        o["s"] = s;
        if( T.isConstQualified() )
            o["const"] = true;
        const clang::Type * t = T.getTypePtr();
        if( t->isReferenceType() )
        {
            o["c"]  = t->isRValueReferenceType() ? "rref" : "ref";
            o["of"] = type( t->getPointeeType() );
        }
        else if( t->isPointerType() )
        {
            o["c"]  = "ptr";
            o["of"] = type( t->getPointeeType() );
        }
        else if( t->isBooleanType() )
            o["c"] = "bool";
        else if( t->isEnumeralType() )
        {
            o["c"] = "enum";
            o["n"] = qname( t->getAs<EnumType>()->getDecl() );
            json::Array es;
            for( auto * e : t->getAs<EnumType>()->getDecl()->enumerators() )
                es.push_back( json::Array{ e->getNameAsString(), llvm::toString( e->getInitVal(), 10 ) } );
            o["enums"] = std::move( es );
        }
        else if( t->isIntegerType() )
        {
            o["c"]      = "int";
            o["bits"]   = (int)C.getTypeSize( T );
            o["signed"] = t->isSignedIntegerType();
            o["char"]   = t->isAnyCharacterType();
        }
        else if( t->isFloatingType() )
        {
            o["c"]    = "float";
            o["bits"] = (int)C.getTypeSize( T );
        }
        else if( t->isVoidType() )
            o["c"] = "void";
        else if( t->isNullPtrType() )
            o["c"] = "nullptr";
        else if( t->isArrayType() )
        {
            o["c"]  = "array";
            o["of"] = type( C.getAsArrayType( T )->getElementType() );
            if( auto * ca = C.getAsConstantArrayType( T ) )
                o["n"] = (int64_t)ca->getSize().getZExtValue();
        }
        else if( t->isFunctionType() )
            o["c"] = "func";
        else if( auto * rd = t->getAsCXXRecordDecl() )
        {
            o["c"] = "record";
            o["n"] = qname( rd );
            if( auto * sp = dyn_cast<ClassTemplateSpecializationDecl>( rd ) )
            {
                json::Array a;
                addArgs( a, sp->getTemplateArgs().asArray() );
                o["a"] = std::move( a );
            }
            if( rd->isLambda() )
                o["lambda"] = true;
            int r = record( rd );
            if( r >= 0 )
                o["rec"] = r;
        }
        else
            o["c"] = std::string( "other:" ) + t->getTypeClassName();
        types[id] = std::move( o );
        return id;
    }
    void addArgs( json::Array & a, llvm::ArrayRef<TemplateArgument> args )
    {
        for( auto & x : args )
        {
            if( x.getKind() == TemplateArgument::Type )
                a.push_back( type( x.getAsType() ) );
            else if( x.getKind() == TemplateArgument::Integral )
                a.push_back( json::Object{ { "v", llvm::toString( x.getAsIntegral(), 10 ) } } );
            else if( x.getKind() == TemplateArgument::Pack )
                addArgs( a, x.pack_elements() );
            else
                a.push_back( nullptr );
        }
    }

    int record( const CXXRecordDecl * rd )
    {
        rd = rd->getDefinition() ? rd->getDefinition() : rd;
        auto it = recIdx.find( rd );
        if( it != recIdx.end() )
            return it->second;
        if( !inRoots( rd->getLocation() ) || !rd->isCompleteDefinition() )
            return -1;
        if( rd->isDependentContext() )
            return -1;
        int id     = (int)records.size();
        recIdx[rd] = id;
        records.push_back( nullptr );
        json::Object o;
        o["n"]    = qname( rd );
        o["s"]    = C.getTypeDeclType( rd ).getCanonicalType().getAsString( PP );
        o["file"] = fileOf( rd->getLocation() );
        o["line"] = lineOf( rd->getLocation() );
        if( rd->isLambda() )
            o["lambda"] = true;
        if( rd->isUnion() )
            o["union"] = true;
        json::Array bases;
        for( auto & b : rd->bases() )
            bases.push_back( type( b.getType() ) );
        o["bases"] = std::move( bases );
        json::Array fs;
        for( auto * f : rd->fields() )
        {
            json::Object fo;
            fo["n"]      = f->getNameAsString();
            fo["t"]      = type( f->getType() );
            fo["l"]      = lineOf( f->getLocation() );
            fo["access"] = (int)f->getAccess();
            if( f->hasInClassInitializer() )
            {
                const Expr * e = f->getInClassInitializer();
                if( !e && isa<ClassTemplateSpecializationDecl>( rd ) )
                {
                    // not instantiated yet: fall back on the pattern's initialiser when it is not dependent
                    if( auto * pat = rd->getTemplateInstantiationPattern() )
                        for( auto * pf : pat->fields() )
                            if( pf->getName() == f->getName() )
                                e = pf->getInClassInitializer();
                }
                if( e )
                    fo["init"] = expr( e );
                else
                    fo["init"] = json::Object{ { "k", "unk" }, { "cls", "uninstantiated-init" } };
            }
            fs.push_back( std::move( fo ) );
        }
        o["fields"] = std::move( fs );
        json::Array ms;
        for( auto * m : rd->methods() )
        {
            if( m->isImplicit() )
                continue;
            json::Object mo;
            mo["f"] = func( m );
            if( m->isVirtual() )
                mo["virt"] = true;
            json::Array ov;
            for( auto * x : m->overridden_methods() )
                ov.push_back( func( x ) );
            if( !ov.empty() )
                mo["over"] = std::move( ov );
            ms.push_back( std::move( mo ) );
        }
        o["methods"]  = std::move( ms );
        records[id] = std::move( o );
        return id;
    }

    // ---- functions
    std::string mangle( const FunctionDecl * F )
    {
        std::string s;
        if( auto * m = dyn_cast<CXXMethodDecl>( F ) )
            if( m->getParent()->isLambda() )
                return "L:" + tu + ":" + std::to_string( declId( F ) );
        llvm::raw_string_ostream os( s );
        if( auto * c = dyn_cast<CXXConstructorDecl>( F ) )
            MC->mangleName( GlobalDecl( c, Ctor_Complete ), os );
        else if( auto * d = dyn_cast<CXXDestructorDecl>( F ) )
            MC->mangleName( GlobalDecl( d, Dtor_Complete ), os );
        else if( MC->shouldMangleDeclName( F ) )
            MC->mangleName( GlobalDecl( F ), os );
        else
            os << F->getNameAsString();
        os.flush();
        return s;
    }

    int func( const FunctionDecl * F )
    {
        F       = F->getCanonicalDecl();
        auto it = funcIdx.find( F );
        if( it != funcIdx.end() )
            return it->second;
        int id     = (int)funcs.size();
        funcIdx[F] = id;
        funcs.push_back( nullptr );
        fdecls.push_back( F );
        json::Object o;
        if( F->isDependentContext() )
        {
            o["q"]    = qname( F );
            o["dep"]  = true;
            funcs[id] = std::move( o );
            return id;
        }
        o["q"] = qname( F );
        o["n"] = F->getNameAsString();
        o["m"] = mangle( F );
        bool repo = inRoots( F->getLocation() );
        if( auto * pat = F->getTemplateInstantiationPattern() )
            repo = repo || inRoots( pat->getLocation() );
        o["repo"] = repo;
        o["rt"]   = type( F->getReturnType() );
        json::Array ps;
        for( auto * p : F->parameters() )
            ps.push_back( type( p->getType() ) );
        o["ps"] = std::move( ps );
        if( F->isVariadic() )
            o["variadic"] = true;
        if( auto * m = dyn_cast<CXXMethodDecl>( F ) )
        {
            o["cls"] = type( C.getTypeDeclType( m->getParent() ) );
            if( m->isStatic() )
                o["static"] = true;
            if( m->isConst() )
                o["const"] = true;
            if( m->isVirtual() )
                o["virt"] = true;
            if( m->isPureVirtual() )
                o["pure"] = true;
            if( isa<CXXConstructorDecl>( m ) )
                o["kind"] = "ctor";
            else if( isa<CXXDestructorDecl>( m ) )
                o["kind"] = "dtor";
            else if( isa<CXXConversionDecl>( m ) )
                o["kind"] = "conv";
            if( auto * c = dyn_cast<CXXConstructorDecl>( m ) )
            {
                if( c->isCopyConstructor() )
                    o["copy"] = true;
                if( c->isMoveConstructor() )
                    o["move"] = true;
            }
            else
            {
                if( m->isCopyAssignmentOperator() )
                    o["copyasg"] = true;
                if( m->isMoveAssignmentOperator() )
                    o["moveasg"] = true;
            }
            if( m->isDefaulted() )
                o["defaulted"] = true;
            if( m->getParent()->isLambda() )
                o["lambda"] = true;
        }
        if( auto * args = F->getTemplateSpecializationArgs() )
        {
            json::Array a;
            addArgs( a, args->asArray() );
            o["ta"] = std::move( a );
        }
        funcs[id] = std::move( o );
        if( repo )
            enqueue( F );
        return id;
    }
    void enqueue( const FunctionDecl * F )
    {
        F = F->getCanonicalDecl();
        if( F->isDependentContext() )
            return;
        if( queued.insert( F ).second )
            work.push_back( F );
    }

    void body( const FunctionDecl * F0 )
    {
        int id = func( F0 );
        const FunctionDecl * F = nullptr;
        if( !F0->isDefined( F ) || !F )
            F = F0;
        json::Object & o0 = *funcs[id].getAsObject();
        (void)o0;
        json::Object o;
        o["tsk"]  = (int)F->getTemplateSpecializationKind();
        o["file"] = fileOf( F->getLocation() );
        o["line"] = lineOf( F->getLocation() );
        if( auto * pat = F->getTemplateInstantiationPattern() )
        {
            o["patfile"] = fileOf( pat->getLocation() );
            o["patline"] = lineOf( pat->getLocation() );
        }
        o["inline"] = F->isInlined();
        bool def    = F->doesThisDeclarationHaveABody() || F->isDefaulted();
        o["def"]    = def;
        if( F->isDeleted() )
            o["deleted"] = true;
        if( F->doesThisDeclarationHaveABody() && F->getBody() )
        {
            json::Array ps;
            for( auto * p : F->parameters() )
            {
                json::Object po{ { "id", declId( p ) }, { "n", p->getNameAsString() }, { "t", type( p->getType() ) } };
                ps.push_back( std::move( po ) );
            }
            o["params"] = std::move( ps );
            if( auto * c = dyn_cast<CXXConstructorDecl>( F ) )
            {
                json::Array is;
                for( auto * i : c->inits() )
                {
                    json::Object io;
                    io["l"] = lineOf( i->getSourceLocation() );
                    if( i->isMemberInitializer() )
                        io["field"] = i->getMember()->getNameAsString();
                    else if( i->isBaseInitializer() )
                        io["base"] = type( QualType( i->getBaseClass(), 0 ) );
                    else if( i->isDelegatingInitializer() )
                        io["deleg"] = true;
                    else
                        io["other"] = true;
                    io["written"] = i->isWritten();
                    io["e"]       = expr( i->getInit() );
                    is.push_back( std::move( io ) );
                }
                o["inits"] = std::move( is );
            }
            o["body"] = stmt( F->getBody() );
        }
        json::Object & oo = *funcs[id].getAsObject();
        for( auto & kv : o )
            oo[kv.first] = std::move( kv.second );
    }

    // ---- statements
    json::Value stmt( const Stmt * S )
    {
        if( !S )
            return nullptr;
        json::Object o;
        o["l"] = lineOf( S->getBeginLoc() );
        if( auto * x = dyn_cast<CompoundStmt>( S ) )
        {
            o["k"] = "block";
            json::Array a;
            for( auto * c : x->body() )
                a.push_back( stmt( c ) );
            o["s"] = std::move( a );
        }
        else if( auto * x = dyn_cast<DeclStmt>( S ) )
        {
            o["k"] = "decl";
            json::Array a;
            for( auto * d : x->decls() )
                if( auto * v = dyn_cast<VarDecl>( d ) )
                    a.push_back( var( v ) );
            o["d"] = std::move( a );
        }
        else if( auto * x = dyn_cast<IfStmt>( S ) )
        {
            o["k"] = "if";
            if( x->getInit() )
                o["init"] = stmt( x->getInit() );
            if( x->getConditionVariable() )
                o["cv"] = var( x->getConditionVariable() );
            if( x->isConstexpr() )
                o["constexpr"] = true;
            if( x->isConsteval() )
                o["c"] = json::Object{ { "k", "bool" }, { "v", x->isNegatedConsteval() } };
            else
                o["c"] = expr( x->getCond() );
            o["a"] = stmt( x->getThen() );
            o["b"] = stmt( x->getElse() );
        }
        else if( auto * x = dyn_cast<ForStmt>( S ) )
        {
            o["k"]    = "for";
            o["init"] = stmt( x->getInit() );
            o["c"]    = x->getCond() ? expr( x->getCond() ) : json::Value( nullptr );
            o["inc"]  = x->getInc() ? expr( x->getInc() ) : json::Value( nullptr );
            o["body"] = stmt( x->getBody() );
        }
        else if( auto * x = dyn_cast<WhileStmt>( S ) )
        {
            o["k"] = "while";
            if( x->getConditionVariable() )
                o["cv"] = var( x->getConditionVariable() );
            o["c"]    = expr( x->getCond() );
            o["body"] = stmt( x->getBody() );
        }
        else if( auto * x = dyn_cast<DoStmt>( S ) )
        {
            o["k"]    = "do";
            o["c"]    = expr( x->getCond() );
            o["body"] = stmt( x->getBody() );
        }
        else if( auto * x = dyn_cast<CXXForRangeStmt>( S ) )
        {
            o["k"] = "rfor";
            if( x->getInit() )
                o["init"] = stmt( x->getInit() );
            o["r"]    = expr( x->getRangeInit() );
            o["v"]    = var( x->getLoopVariable(), false );
            o["body"] = stmt( x->getBody() );
        }
        else if( auto * x = dyn_cast<ReturnStmt>( S ) )
        {
            o["k"] = "ret";
            if( x->getRetValue() )
                o["e"] = expr( x->getRetValue() );
        }
        else if( isa<BreakStmt>( S ) )
            o["k"] = "break";
        else if( isa<ContinueStmt>( S ) )
            o["k"] = "continue";
        else if( isa<NullStmt>( S ) )
            o["k"] = "nop";
        else if( auto * x = dyn_cast<SwitchStmt>( S ) )
        {
            o["k"] = "switch";
            if( x->getInit() )
                o["init"] = stmt( x->getInit() );
            if( x->getConditionVariable() )
                o["cv"] = var( x->getConditionVariable() );
            o["c"]    = expr( x->getCond() );
            o["body"] = stmt( x->getBody() );
        }
        else if( auto * x = dyn_cast<CaseStmt>( S ) )
        {
            o["k"] = "case";
            o["e"] = expr( x->getLHS() );
            o["s"] = stmt( x->getSubStmt() );
        }
        else if( auto * x = dyn_cast<DefaultStmt>( S ) )
        {
            o["k"] = "default";
            o["s"] = stmt( x->getSubStmt() );
        }
        else if( auto * x = dyn_cast<CXXTryStmt>( S ) )
        {
            o["k"]    = "try";
            o["body"] = stmt( x->getTryBlock() );
            json::Array hs;
            for( unsigned i = 0; i < x->getNumHandlers(); i++ )
            {
                auto * h = x->getHandler( i );
                json::Object ho;
                if( h->getExceptionDecl() )
                    ho["v"] = var( h->getExceptionDecl() );
                ho["body"] = stmt( h->getHandlerBlock() );
                hs.push_back( std::move( ho ) );
            }
            o["h"] = std::move( hs );
        }
        else if( auto * x = dyn_cast<AttributedStmt>( S ) )
            return stmt( x->getSubStmt() );
        else if( auto * x = dyn_cast<LabelStmt>( S ) )
            return stmt( x->getSubStmt() );
        else if( auto * e = dyn_cast<Expr>( S ) )
        {
            o["k"] = "expr";
            o["e"] = expr( e );
        }
        else
        {
            o["k"]   = "unk";
            o["cls"] = S->getStmtClassName();
        }
        return o;
    }

    json::Value var( const VarDecl * v, bool withInit = true )
    {
        json::Object o;
        o["id"] = declId( v );
        o["n"]  = v->getNameAsString();
        o["t"]  = type( v->getType() );
        o["l"]  = lineOf( v->getLocation() );
        if( v->isStaticLocal() )
            o["static"] = true;
        if( v->getTSCSpec() != TSCS_unspecified )
            o["tls"] = true;
        if( withInit && v->getInit() )
            o["init"] = expr( v->getInit() );
        if( auto * d = dyn_cast<DecompositionDecl>( v ) )
        {
            json::Array b;
            for( auto * x : d->bindings() )
            {
                json::Object bo;
                bo["id"] = declId( x );
                bo["n"]  = x->getNameAsString();
                bo["t"]  = type( x->getType() );
                if( auto * hv = x->getHoldingVar() )
                {
                    bo["hid"] = declId( hv );
                    if( hv->getInit() )
                        bo["hinit"] = expr( hv->getInit() );
                }
                else if( x->getBinding() )
                    bo["e"] = expr( x->getBinding() );
                b.push_back( std::move( bo ) );
            }
            o["bind"] = std::move( b );
        }
        return o;
    }

    // ---- expressions
    json::Array exprs( llvm::ArrayRef<const Expr *> a )
    {
        json::Array r;
        for( auto * e : a )
            r.push_back( expr( e ) );
        return r;
    }
    template<typename R>
    json::Array args( R r )
    {
        json::Array a;
        for( const auto * e : r )
            a.push_back( expr( cast<Expr>( e ) ) );
        return a;
    }

    json::Value expr( const Expr * E )
    {
        if( !E )
            return nullptr;
        // transparent wrappers
        if( auto * x = dyn_cast<ParenExpr>( E ) )
            return expr( x->getSubExpr() );
        if( auto * x = dyn_cast<ExprWithCleanups>( E ) )
            return expr( x->getSubExpr() );
        if( auto * x = dyn_cast<MaterializeTemporaryExpr>( E ) )
            return expr( x->getSubExpr() );
        if( auto * x = dyn_cast<CXXBindTemporaryExpr>( E ) )
            return expr( x->getSubExpr() );
        if( auto * x = dyn_cast<ConstantExpr>( E ) )
            return expr( x->getSubExpr() );
        if( auto * x = dyn_cast<SubstNonTypeTemplateParmExpr>( E ) )
            return expr( x->getReplacement() );
        if( auto * x = dyn_cast<CXXDefaultArgExpr>( E ) )
        {
            auto v = expr( x->getExpr() );
            if( auto * oo = v.getAsObject() )
                (*oo)["dflt"] = true;
            return v;
        }
        if( auto * x = dyn_cast<CXXDefaultInitExpr>( E ) )
            return expr( x->getExpr() );
        if( auto * x = dyn_cast<CXXRewrittenBinaryOperator>( E ) )
            return expr( x->getSemanticForm() );
        if( auto * x = dyn_cast<CXXStdInitializerListExpr>( E ) )
            return expr( x->getSubExpr() );
        if( auto * x = dyn_cast<ChooseExpr>( E ) )
            return expr( x->getChosenSubExpr() );
        if( auto * x = dyn_cast<GenericSelectionExpr>( E ) )
            return expr( x->getResultExpr() );

        json::Object o;
        o["l"] = lineOf( E->getBeginLoc() );
        if( E->containsErrors() || E->isTypeDependent() )
        {
            o["k"]   = "unk";
            o["cls"] = "invalid";
            o["t"]   = type( C.VoidTy );
            return o;
        }
        o["t"] = type( E->getType() );
        if( E->isGLValue() )
            o["lv"] = true;

        if( auto * x = dyn_cast<CastExpr>( E ) )
        {
            auto ck = x->getCastKind();
            switch( ck )
            {
            case CK_NoOp:
            case CK_LValueToRValue:
            case CK_ArrayToPointerDecay:
            case CK_FunctionToPointerDecay:
            case CK_DerivedToBase:
            case CK_UncheckedDerivedToBase:
            case CK_ConstructorConversion:
            case CK_UserDefinedConversion:
            case CK_NullToPointer:
            case CK_BuiltinFnToFnPtr:
                return expr( x->getSubExpr() );
            default:
                break;
            }
            o["k"]  = "cast";
            o["ck"] = x->getCastKindName();
            o["e"]  = expr( x->getSubExpr() );
            if( isa<ExplicitCastExpr>( x ) )
                o["explicit"] = true;
            return o;
        }
        if( auto * x = dyn_cast<IntegerLiteral>( E ) )
        {
            o["k"] = "int";
            o["v"] = llvm::toString( x->getValue(), 10, E->getType()->isSignedIntegerType() );
        }
        else if( auto * x = dyn_cast<FloatingLiteral>( E ) )
        {
            o["k"] = "float";
            llvm::SmallString<32> s;
            x->getValue().toString( s, 40, 0 );
            o["v"] = std::string( s );
        }
        else if( auto * x = dyn_cast<CXXBoolLiteralExpr>( E ) )
        {
            o["k"] = "bool";
            o["v"] = x->getValue();
        }
        else if( auto * x = dyn_cast<CharacterLiteral>( E ) )
        {
            o["k"] = "char";
            o["v"] = (int64_t)x->getValue();
        }
        else if( auto * x = dyn_cast<StringLiteral>( E ) )
        {
            o["k"] = "str";
            std::string s = x->isOrdinary() || x->isUTF8() ? x->getString().str() : std::string( "?" );
            o["v"]        = llvm::json::fixUTF8( s );
        }
        else if( isa<CXXNullPtrLiteralExpr>( E ) || isa<GNUNullExpr>( E ) )
            o["k"] = "null";
        else if( auto * x = dyn_cast<DeclRefExpr>( E ) )
        {
            auto * d = x->getDecl();
            if( auto * f = dyn_cast<FunctionDecl>( d ) )
            {
                o["k"] = "fn";
                o["f"] = func( f );
            }
            else if( auto * ec = dyn_cast<EnumConstantDecl>( d ) )
            {
                o["k"] = "enumc";
                o["n"] = qname( ec );
                o["v"] = llvm::toString( ec->getInitVal(), 10 );
            }
            else if( Expr::EvalResult r; isa<VarTemplateSpecializationDecl>( d ) && !E->isValueDependent()
                                         && E->getType()->isBooleanType() && E->EvaluateAsRValue( r, C ) && r.Val.isInt() )
            {
                // std::is_same_v<A, B> and its like: one name, one value for each list of arguments
                o.erase( "lv" );
                o["k"] = "bool";
                o["v"] = r.Val.getInt().getBoolValue();
            }
            else
            {
                o["k"]  = "var";
                o["id"] = declId( d );
                o["n"]  = d->getNameAsString();
                if( auto * v = dyn_cast<VarDecl>( d ) )
                {
                    if( v->hasGlobalStorage() && !v->isStaticLocal() )
                    {
                        std::string q = qname( v );
                        o["g"]        = q;
                        if( !globals.get( q ) )
                        {
                            globals[q] = nullptr;
                            json::Object go;
                            go["t"]     = type( v->getType() );
                            go["const"] = v->getType().isConstQualified();
                            go["repo"]  = inRoots( v->getLocation() );
                            go["file"]  = fileOf( v->getLocation() );
                            go["line"]  = lineOf( v->getLocation() );
                            if( auto * in = v->getAnyInitializer() )
                                go["init"] = expr( in );
                            globals[q] = std::move( go );
                        }
                    }
                    if( v->isStaticLocal() )
                        o["static"] = true;
                }
                o["vt"] = type( d->getType() );
            }
        }
        else if( auto * x = dyn_cast<MemberExpr>( E ) )
        {
            if( auto * f = dyn_cast<FieldDecl>( x->getMemberDecl() ) )
            {
                o["k"] = "mem";
                o["n"] = f->getNameAsString();
                o["b"] = expr( x->getBase() );
                o["cls"] = type( C.getTypeDeclType( f->getParent() ) );
                if( x->isArrow() )
                    o["arrow"] = true;
            }
            else if( auto * m = dyn_cast<FunctionDecl>( x->getMemberDecl() ) )
            {
                o["k"] = "fn";
                o["f"] = func( m );
            }
            else if( auto * ec = dyn_cast<EnumConstantDecl>( x->getMemberDecl() ) )
            {
                o["k"] = "enumc";
                o["n"] = qname( ec );
                o["v"] = llvm::toString( ec->getInitVal(), 10 );
            }
            else
            {
                o["k"] = "unk";
                o["cls"] = "MemberExpr";
            }
        }
        else if( auto * x = dyn_cast<CXXOperatorCallExpr>( E ) )
        {
            o["k"]  = "ocall";
            o["op"] = getOperatorSpelling( x->getOperator() );
            if( auto * f = x->getDirectCallee() )
                o["f"] = func( f );
            o["a"] = args( x->arguments() );
        }
        else if( auto * x = dyn_cast<CXXMemberCallExpr>( E ) )
        {
            o["k"] = "mcall";
            if( auto * f = x->getMethodDecl() )
                o["f"] = func( f );
            o["b"] = expr( x->getImplicitObjectArgument() );
            if( auto * me = dyn_cast<MemberExpr>( x->getCallee()->IgnoreParens() ) )
            {
                if( me->isArrow() )
                    o["arrow"] = true;
                if( me->hasQualifier() )
                    o["qual"] = true;
            }
            o["a"] = args( x->arguments() );
        }
        else if( auto * x = dyn_cast<CallExpr>( E ) )
        {
            o["k"] = "call";
            if( auto * f = x->getDirectCallee() )
                o["f"] = func( f );
            else
                o["fe"] = expr( x->getCallee() );
            o["a"] = args( x->arguments() );
        }
        else if( auto * x = dyn_cast<CXXConstructExpr>( E ) )
        {
            o["k"] = "ctor";
            o["f"] = func( x->getConstructor() );
            o["a"] = args( x->arguments() );
            if( x->isListInitialization() )
                o["list"] = true;
            if( x->isStdInitListInitialization() )
                o["stdinit"] = true;
            if( x->requiresZeroInitialization() )
                o["zero"] = true;
        }
        else if( auto * x = dyn_cast<CXXInheritedCtorInitExpr>( E ) )
        {
            o["k"] = "ctor";
            o["f"] = func( x->getConstructor() );
            o["a"] = json::Array{};
            o["inherited"] = true;
        }
        else if( auto * x = dyn_cast<InitListExpr>( E ) )
        {
            o["k"] = "init";
            auto * s = x->isSemanticForm() ? x : x->getSemanticForm();
            if( !s )
                s = x;
            o["a"] = args( s->inits() );
        }
        else if( auto * x = dyn_cast<CXXParenListInitExpr>( E ) )
        {
            o["k"] = "init";
            o["a"] = args( x->getInitExprs() );
        }
        else if( auto * x = dyn_cast<UnaryOperator>( E ) )
        {
            o["k"]  = "un";
            o["op"] = UnaryOperator::getOpcodeStr( x->getOpcode() ).str();
            if( x->isPostfix() )
                o["post"] = true;
            o["e"] = expr( x->getSubExpr() );
        }
        else if( auto * x = dyn_cast<BinaryOperator>( E ) )
        {
            if( x->isAssignmentOp() )
            {
                o["k"] = "asg";
                if( auto * ca = dyn_cast<CompoundAssignOperator>( x ) )
                    o["ct"] = type( ca->getComputationResultType() );
            }
            else
                o["k"] = "bin";
            o["op"] = x->getOpcodeStr().str();
            o["a"]  = expr( x->getLHS() );
            o["b"]  = expr( x->getRHS() );
        }
        else if( auto * x = dyn_cast<AbstractConditionalOperator>( E ) )
        {
            o["k"] = "cond";
            o["c"] = expr( x->getCond() );
            o["a"] = expr( x->getTrueExpr() );
            o["b"] = expr( x->getFalseExpr() );
        }
        else if( auto * x = dyn_cast<OpaqueValueExpr>( E ) )
            return expr( x->getSourceExpr() );
        else if( auto * x = dyn_cast<LambdaExpr>( E ) )
        {
            o["k"] = "lam";
            json::Array caps;
            auto fit = x->getLambdaClass()->field_begin();
            auto ii  = x->capture_init_begin();
            for( auto & c : x->captures() )
            {
                json::Object co;
                if( c.capturesThis() )
                {
                    co["this"] = true;
                    if( c.getCaptureKind() == LCK_StarThis )
                        co["copythis"] = true;
                }
                else if( c.capturesVariable() )
                {
                    co["id"]  = declId( c.getCapturedVar() );
                    co["n"]   = c.getCapturedVar()->getNameAsString();
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                    if( *ii )
                        co["init"] = expr( *ii );
                }
                caps.push_back( std::move( co ) );
                ++fit;
                ++ii;
            }
            o["caps"] = std::move( caps );
            json::Array fs;
            auto * op = x->getCallOperator();
            if( x->isGenericLambda() )
            {
                if( auto * ft = op->getDescribedFunctionTemplate() )
                    for( auto * sp : ft->specializations() )
                        fs.push_back( func( sp ) );
            }
            else
                fs.push_back( func( op ) );
            o["fs"] = std::move( fs );
            o["mutable"] = !op->isConst();
        }
        else if( isa<CXXThisExpr>( E ) )
            o["k"] = "this";
        else if( auto * x = dyn_cast<ArraySubscriptExpr>( E ) )
        {
            o["k"] = "sub";
            o["a"] = expr( x->getBase() );
            o["b"] = expr( x->getIdx() );
        }
        else if( auto * x = dyn_cast<CXXThrowExpr>( E ) )
        {
            o["k"] = "throw";
            if( x->getSubExpr() )
                o["e"] = expr( x->getSubExpr() );
        }
        else if( auto * x = dyn_cast<CXXNewExpr>( E ) )
        {
            o["k"]  = "new";
            o["at"] = type( x->getAllocatedType() );
            if( x->getInitializer() )
                o["e"] = expr( x->getInitializer() );
        }
        else if( auto * x = dyn_cast<UnaryExprOrTypeTraitExpr>( E ) )
        {
            Expr::EvalResult r;
            if( E->EvaluateAsInt( r, C ) )
            {
                o["k"] = "int";
                o["v"] = llvm::toString( r.Val.getInt(), 10 );
            }
            else
            {
                o["k"]   = "unk";
                o["cls"] = "sizeof";
            }
            (void)x;
        }
        else if( isa<ImplicitValueInitExpr>( E ) || isa<CXXScalarValueInitExpr>( E ) )
            o["k"] = "zero";
        else if( isa<TypeTraitExpr>( E ) || isa<RequiresExpr>( E ) || isa<ConceptSpecializationExpr>( E ) )
        {
            Expr::EvalResult r;
            if( !E->isValueDependent() && E->EvaluateAsRValue( r, C ) && r.Val.isInt() )
            {
                o["k"] = "bool";
                o["v"] = r.Val.getInt().getBoolValue();
            }
            else
            {
                o["k"]   = "unk";
                o["cls"] = E->getStmtClassName();
            }
        }
        else
        {
            o["k"]   = "unk";
            o["cls"] = E->getStmtClassName();
            json::Array ch;
            for( auto * c : E->children() )
                if( auto * ce = dyn_cast_or_null<Expr>( c ) )
                    ch.push_back( expr( ce ) );
            o["ch"] = std::move( ch );
        }
        return o;
    }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
public:
    Dumper & D;
    Visitor( Dumper & D ) : D( D ) {}
    bool shouldVisitTemplateInstantiations() const
    {
        return true;
    }
    bool shouldVisitImplicitCode() const
    {
        return false;
    }
    bool VisitFunctionDecl( FunctionDecl * F )
    {
        if( F->isDependentContext() )
            return true;
        bool repo = D.inRoots( F->getLocation() );
        if( auto * pat = F->getTemplateInstantiationPattern() )
            repo = repo || D.inRoots( pat->getLocation() );
        if( repo )
            D.enqueue( F );
        return true;
    }
    bool VisitCXXRecordDecl( CXXRecordDecl * R )
    {
        if( R->isCompleteDefinition() && !R->isDependentContext() && D.inRoots( R->getLocation() ) )
            D.record( R );
        return true;
    }
    bool VisitVarDecl( VarDecl * v )
    {
        if( v->hasGlobalStorage() && !v->getDeclContext()->isDependentContext() && D.inRoots( v->getLocation() ) )
        {
            std::string q = D.qname( v );
            if( v->isStaticLocal() )
                q = "static-local:" + q + ":" + std::to_string( D.lineOf( v->getLocation() ) );
            if( !D.globals.get( q ) )
            {
                json::Object go;
                go["t"]     = D.type( v->getType() );
                go["const"] = v->getType().isConstQualified() || v->isConstexpr();
                go["repo"]  = true;
                go["file"]  = D.fileOf( v->getLocation() );
                go["line"]  = D.lineOf( v->getLocation() );
                if( v->getInit() && !v->getInit()->isValueDependent() )
                    go["init"] = D.expr( v->getInit() );
                D.globals[q] = std::move( go );
            }
        }
        return true;
    }
};

class Consumer : public ASTConsumer
{
    std::string tu;

public:
    Consumer( std::string tu ) : tu( tu ) {}
    void HandleTranslationUnit( ASTContext & C ) override
    {
        // a harness that no longer fits the code's interface: what parsed is still used
        if( C.getDiagnostics().hasErrorOccurred() && !getenv( "SX_TOLERANT" ) )
            return;
        Dumper D( C );
        D.tu = tu;
        Visitor V( D );
        V.TraverseDecl( C.getTranslationUnitDecl() );
        while( !D.work.empty() )
        {
            auto * F = D.work.front();
            D.work.pop_front();
            D.body( F );
        }
        std::error_code ec;
        llvm::raw_fd_ostream os( g_out, ec );
        json::Object top;
        top["tu"]      = tu;
        top["types"]   = std::move( D.types );
        top["funcs"]   = std::move( D.funcs );
        top["records"] = std::move( D.records );
        top["globals"] = std::move( D.globals );
        os << json::Value( std::move( top ) );
    }
};
class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer( CompilerInstance & CI, StringRef f ) override
    {
        return std::make_unique<Consumer>( f.str() );
    }
};

int main( int argc, char ** argv )
{
    if( argc < 5 )
        return 2;
    g_out = argv[1];
    std::string r = argv[2];
    size_t p      = 0;
    while( p <= r.size() )
    {
        auto q = r.find( ':', p );
        if( q == std::string::npos )
            q = r.size();
        g_roots.push_back( r.substr( p, q - p ) );
        p = q + 1;
    }
    std::string file = argv[3];
    std::vector<std::string> args;
    for( int i = 5; i < argc; i++ )
        args.push_back( argv[i] );
    tooling::FixedCompilationDatabase db( ".", args );
    tooling::ClangTool tool( db, { file } );
    return tool.run( tooling::newFrontendActionFactory<Action>().get() );
}

// Stand-in for the part of MLIR the device layer uses (declarations only; nothing here is ever executed).
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <optional>
#include <queue>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "llvm/ADT/APFloat.h"
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/ArrayRef.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/STLExtras.h"
#include "llvm/ADT/Sequence.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/ADT/Twine.h"
#include "llvm/ADT/iterator_range.h"
#include "llvm/Support/Casting.h"
#include "llvm/Support/ErrorHandling.h"
#include "llvm/Support/raw_ostream.h"
namespace mlir {
using llvm::APFloat; using llvm::APInt; using llvm::ArrayRef; using llvm::DenseMap; using llvm::SmallVector; using llvm::SmallVectorImpl; using llvm::StringRef; using llvm::Twine; using llvm::function_ref; using llvm::raw_ostream;
class Operation; class Block; class Region; class MLIRContext; struct AsmPrinter; struct AsmParser; class Type; class Value; class Attribute; class BlockArgument; class OpResult; class StringAttr;
struct LogicalResult { bool v; }; inline LogicalResult success(bool b = true) { return {b}; } inline LogicalResult failure(bool b = true) { return {!b}; } bool succeeded(LogicalResult); bool failed(LogicalResult);
template <class T> struct FailureOr { FailureOr(T); FailureOr(LogicalResult); T operator*() const; T* operator->() const; };
class Diagnostic { public: std::string str() const; template <class T> Diagnostic& operator<<(T&&); };
class InFlightDiagnostic { public: template <class T> InFlightDiagnostic& operator<<(T&&); operator LogicalResult() const; };
class Location { public: MLIRContext* getContext() const; };
raw_ostream& operator<<(raw_ostream&, const Location&);
class DiagnosticEngine { public: int registerHandler(std::function<void(Diagnostic&)>); };
class MLIRContext { public: template <class... D> void loadDialect(); template <class D> D* getOrLoadDialect(); DiagnosticEngine& getDiagEngine(); void enableMultithreading(bool = true); void disableMultithreading(bool = true); void enterMultiThreadedExecution(); void exitMultiThreadedExecution(); };
class Type { public: Type() = default; Type(std::nullptr_t); explicit operator bool() const; bool operator!() const; bool operator==(Type) const; bool operator!=(Type) const; MLIRContext* getContext() const; ArrayRef<int64_t> getShape() const; Type getElementType() const; bool isF16() const; bool isF32() const; bool isF64() const; bool isInteger(unsigned) const; bool isIntOrIndex() const; bool isSignlessInteger() const; bool isSignlessInteger(unsigned) const; unsigned getIntOrFloatBitWidth() const; template <class T> bool isa() const; template <class T> T dyn_cast() const; template <class T> T cast() const; void dump() const; const void* impl = nullptr; };
raw_ostream& operator<<(raw_ostream&, Type);
class FloatType : public Type { public: unsigned getWidth() const; };
class IntegerType : public Type { public: unsigned getWidth() const; bool isSigned() const; bool isUnsigned() const; bool isSignless() const; enum SignednessSemantics { Signless, Signed, Unsigned }; static IntegerType get(MLIRContext*, unsigned, SignednessSemantics = Signless); };
class IndexType : public Type {};
class ComplexType : public Type { public: Type getElementType() const; static ComplexType get(Type); };
class ShapedType : public Type { public: ArrayRef<int64_t> getShape() const; Type getElementType() const; int64_t getNumElements() const; int64_t getRank() const; int64_t getDimSize(unsigned) const; bool hasStaticShape() const; bool hasRank() const; ShapedType clone(Type) const; };
class TensorType : public ShapedType { public: TensorType clone(Type) const; };
class RankedTensorType : public TensorType { public: static RankedTensorType get(ArrayRef<int64_t>, Type); RankedTensorType clone(Type) const; RankedTensorType clone(ArrayRef<int64_t>) const; };
class FunctionType : public Type { public: ArrayRef<Type> getInputs() const; ArrayRef<Type> getResults() const; unsigned getNumInputs() const; unsigned getNumResults() const; };
class Attribute { public: Attribute() = default; explicit operator bool() const; bool operator!() const; bool operator==(Attribute) const; MLIRContext* getContext() const; template <class T> bool isa() const; template <class T> T dyn_cast() const; template <class T> T cast() const; const void* impl = nullptr; };
raw_ostream& operator<<(raw_ostream&, Attribute);
class TypedAttr : public Attribute { public: Type getType() const; };
class StringAttr : public Attribute { public: StringRef getValue() const; std::string str() const; operator StringRef() const; static StringAttr get(MLIRContext*, const Twine&); };
class IntegerAttr : public TypedAttr { public: int64_t getInt() const; APInt getValue() const; };
class BoolAttr : public Attribute { public: bool getValue() const; static BoolAttr get(MLIRContext*, bool); };
class FloatAttr : public TypedAttr { public: APFloat getValue() const; double getValueAsDouble() const; };
class NamedAttribute { public: StringAttr getName() const; Attribute getValue() const; };
class DictionaryAttr : public Attribute { public: Attribute get(StringRef) const; ArrayRef<NamedAttribute> getValue() const; };
class ArrayAttr : public Attribute { public: ArrayRef<Attribute> getValue() const; size_t size() const; };
class DenseI64ArrayAttr : public Attribute { public: void print(AsmPrinter&) const; static Attribute parse(AsmParser&, Type);  ArrayRef<int64_t> asArrayRef() const; operator ArrayRef<int64_t>() const; int64_t operator[](size_t) const; int64_t size() const; static DenseI64ArrayAttr get(MLIRContext*, ArrayRef<int64_t>); };
class ElementsAttr : public TypedAttr { public: ShapedType getShapedType() const; Type getElementType() const; bool isSplat() const; template <class T> T getSplatValue() const; int64_t getNumElements() const; };
class DenseElementsAttr : public ElementsAttr { public: ArrayRef<char> getRawData() const; template <class T> llvm::SmallVector<T> getValues() const; static DenseElementsAttr get(ShapedType, ArrayRef<Attribute>); };
template <class To, class From> To dyn_cast(const From& f); template <class To, class From> To dyn_cast_or_null(const From& f); template <class To, class From> To cast(const From& f); template <class... To, class From> bool isa(const From& f);
class TypeRange { public: TypeRange() = default; TypeRange(ArrayRef<Type>);  const Type* begin() const; const Type* end() const; size_t size() const; Type operator[](size_t) const; Type front() const; Type back() const; bool empty() const; };
class Value { public: Value() = default; Value(std::nullptr_t); explicit operator bool() const; bool operator!() const; bool operator==(const Value&) const; bool operator!=(const Value&) const; Type getType() const; void setType(Type); Operation* getDefiningOp() const; template <class Op> Op getDefiningOp() const; MLIRContext* getContext() const; Location getLoc() const; Region* getParentRegion() const; Block* getParentBlock() const; void* getAsOpaquePointer() const; template <class T> T dyn_cast() const; template <class T> bool isa() const; bool use_empty() const; bool hasOneUse() const; const void* impl = nullptr; };
raw_ostream& operator<<(raw_ostream&, Value);
class OpResult : public Value { public: unsigned getResultNumber() const; Operation* getOwner() const; };
class BlockArgument : public Value { public: unsigned getArgNumber() const; Block* getOwner() const; };
template <class T> class TypedValue_ : public Value {};
template <class V> class RangeOf { public: using value_type = V; struct iterator { using iterator_category = std::random_access_iterator_tag; using value_type = V; using difference_type = long; using pointer = V*; using reference = V; V operator*() const; iterator& operator++(); iterator operator++(int); iterator operator+(long) const; long operator-(const iterator&) const; bool operator!=(const iterator&) const; bool operator==(const iterator&) const; }; iterator begin() const; iterator end() const; size_t size() const; bool empty() const; V operator[](size_t) const; V front() const; V back() const; RangeOf drop_front(size_t = 1) const; RangeOf take_front(size_t = 1) const; RangeOf slice(unsigned, unsigned) const; TypeRange getTypes() const; };
class OperandRange : public RangeOf<Value> {}; class ResultRange : public RangeOf<OpResult> {};
class ValueRange : public RangeOf<Value> { public: ValueRange() = default; template <class T> ValueRange(T&&); ValueRange(std::initializer_list<Value>); };
class OperationName { public: StringRef getStringRef() const; StringRef stripDialect() const; };
class Region { public: Block& front(); Block& back(); bool empty(); bool hasOneBlock(); unsigned getNumArguments(); unsigned getRegionNumber(); ArrayRef<BlockArgument> getArguments(); BlockArgument getArgument(unsigned); Operation* getParentOp(); Region* getParentRegion(); template <class F> void walk(F&&) {} Block* begin(); Block* end(); };
class Block { public: Operation& front(); Operation& back(); Operation* begin(); Operation* end(); llvm::iterator_range<Operation*> without_terminator(); Operation* getTerminator(); ArrayRef<BlockArgument> getArguments(); BlockArgument getArgument(unsigned); unsigned getNumArguments(); Operation* getParentOp(); Region* getParent(); bool empty(); template <class F> void walk(F&&) {} };
class Operation { public: OperationName getName(); Location getLoc(); MLIRContext* getContext(); unsigned getNumOperands(); Value getOperand(unsigned); OperandRange getOperands(); TypeRange getOperandTypes(); void setOperand(unsigned, Value); unsigned getNumResults(); OpResult getResult(unsigned); ResultRange getResults(); TypeRange getResultTypes(); unsigned getNumRegions(); Region& getRegion(unsigned); llvm::MutableArrayRef<Region> getRegions(); Region* getParentRegion(); Operation* getParentOp(); Block* getBlock(); Attribute getAttr(StringRef); template <class T> T getAttrOfType(StringRef); bool hasAttr(StringRef); void setAttr(StringRef, Attribute); InFlightDiagnostic emitOpError(const Twine& = {}); template <class F> void walk(F&&) {} bool isBeforeInBlock(Operation*); void erase(); ResultRange::iterator result_begin(); };
raw_ostream& operator<<(raw_ostream&, Operation&);
// base of every operation class
class OpState { public: OpState(Operation* o = nullptr) : op_(o) {} explicit operator bool() const; Operation* operator->() const; Operation* getOperation() const; operator Operation*() const; Location getLoc(); MLIRContext* getContext(); template <class T> T getAttrOfType(StringRef); bool hasAttr(StringRef); Attribute getAttr(StringRef); Operation* op_ = nullptr; template <class F> void walk(F&&) {} void dump(); };
raw_ostream& operator<<(raw_ostream&, const OpState&);
namespace OpTrait { template <class C, template <class> class T> class TraitBase {}; }
template <class Op> class OwningOpRef { public: explicit operator bool() const; bool operator!() const; Op get() const; Op operator*() const; Op* operator->(); };
class ModuleOp : public OpState { public: using OpState::OpState; template <class Op> llvm::SmallVector<Op> getOps(); template <class T = Operation> T lookupSymbol(StringRef); Region& getBodyRegion(); Block* getBody(); };
namespace func { class FuncDialect {}; class FuncOp : public OpState { public: using OpState::OpState; Region& getBody(); Region& getFunctionBody(); FunctionType getFunctionType(); StringRef getName(); StringRef getSymName(); unsigned getNumArguments(); }; class ReturnOp : public OpState { public: using OpState::OpState; OperandRange getOperands(); }; class CallOp : public OpState { public: using OpState::OpState; }; }
template <class Op> OwningOpRef<Op> parseSourceString(StringRef, MLIRContext*); template <class Op> OwningOpRef<Op> parseSourceString(StringRef, const MLIRContext*);
struct OpBuilder { MLIRContext* getContext(); }; struct AsmParser { OpBuilder& getBuilder(); LogicalResult parseKeyword(StringRef); LogicalResult parseOptionalKeyword(StringRef); LogicalResult parseEqual(); LogicalResult parseComma(); };  struct OpAsmParser : AsmParser {}; struct DialectAsmParser : AsmParser {}; struct AsmPrinter { template <class T> AsmPrinter& operator<<(T&&); raw_ostream& getStream(); }; struct OpAsmPrinter : AsmPrinter {}; struct DialectAsmPrinter : AsmPrinter {};
class Dialect {}; struct ParseResult { ParseResult(LogicalResult); };
template <class T> T getElementTypeOrSelf_(T); Type getElementTypeOrSelf(Type); Type getElementTypeOrSelf(Value);
namespace detail { template <class T> T opCast(Operation&); }
}  // namespace mlir
namespace llvm {
template <> struct DenseMapInfo<mlir::Value> { static mlir::Value getEmptyKey(); static mlir::Value getTombstoneKey(); static unsigned getHashValue(mlir::Value); static bool isEqual(mlir::Value, mlir::Value); };
template <class To> struct CastInfo<To, mlir::Operation, std::enable_if_t<std::is_base_of_v<mlir::OpState, To>>> { static bool isPossible(mlir::Operation&); static To doCast(mlir::Operation&); static To castFailed(); static To doCastIfPossible(mlir::Operation&); };
template <class To> struct CastInfo<To, mlir::Operation*, std::enable_if_t<std::is_base_of_v<mlir::OpState, To>>> { static bool isPossible(mlir::Operation*); static To doCast(mlir::Operation*); static To castFailed(); static To doCastIfPossible(mlir::Operation*); };
}

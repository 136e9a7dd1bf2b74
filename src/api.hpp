// api.hpp - every exported function that both builds have, dispatched to the build under test; all
// statuses are folded into the trace that the two builds are compared by.
#pragma once
#include "zy.hpp"
#define API_LIST(F) \
    F(ArgParseEx) F(BitsetAND) F(BitsetAll) F(BitsetAny) F(BitsetAssign) F(BitsetClear) F(BitsetCount) F(BitsetDestroy) F(BitsetFlip) \
    F(BitsetGetCapacity) F(BitsetGetCapacityBytes) F(BitsetGetSize) F(BitsetGetSizeBytes) F(BitsetInitBuffer) F(BitsetInitEx) F(BitsetNone) \
    F(BitsetOR) F(BitsetPerformByteOperation) F(BitsetPop) F(BitsetPush) F(BitsetReserve) F(BitsetReset) F(BitsetResetAll) F(BitsetSet) \
    F(BitsetSetAll) F(BitsetShrinkToFit) F(BitsetTest) F(BitsetTestLSB) F(BitsetTestMSB) F(BitsetToggle) F(BitsetXOR) F(ListClear) \
    F(ListDestroy) F(ListEmplaceBack) F(ListEmplaceFront) F(ListGetHeadNode) F(ListGetNextNode) F(ListGetNodeData) F(ListGetNodeDataEx) \
    F(ListGetNodeDataMutable) F(ListGetNodeDataMutableEx) F(ListGetPrevNode) F(ListGetSize) F(ListGetTailNode) F(ListInitCustomBuffer) \
    F(ListInitEx) F(ListPopBack) F(ListPopFront) F(ListPushBack) F(ListPushFront) F(ListRemove) F(ListRemoveRange) F(ListResize) \
    F(ListResizeEx) F(ListSetNodeData) F(StringAppend) F(StringAppendDecS) F(StringAppendDecU) F(StringAppendEx) F(StringAppendHexS) \
    F(StringAppendHexU) F(StringClear) F(StringCompare) F(StringCompareI) F(StringConcatCustomBuffer) F(StringConcatEx) F(StringDelete) \
    F(StringDestroy) F(StringDuplicateCustomBuffer) F(StringDuplicateEx) F(StringGetCapacity) F(StringGetChar) F(StringGetCharMutable) \
    F(StringGetData) F(StringGetSize) F(StringInitCustomBuffer) F(StringInitEx) F(StringInsert) F(StringInsertEx) F(StringLPos) F(StringLPosEx) \
    F(StringLPosI) F(StringLPosIEx) F(StringRPos) F(StringRPosEx) F(StringRPosI) F(StringRPosIEx) F(StringReserve) F(StringResize) \
    F(StringSetChar) F(StringShrinkToFit) F(StringToLowerCase) F(StringToLowerCaseEx) F(StringToUpperCase) F(StringToUpperCaseEx) \
    F(StringTruncate) F(StringViewGetData) F(StringViewGetSize) F(StringViewInsideBuffer) F(StringViewInsideBufferEx) F(StringViewInsideView) \
    F(StringViewInsideViewEx) F(VectorBinarySearch) F(VectorBinarySearchEx) F(VectorClear) F(VectorDelete) F(VectorDeleteRange) \
    F(VectorDestroy) F(VectorDuplicateCustomBuffer) F(VectorDuplicateEx) F(VectorEmplace) F(VectorEmplaceEx) F(VectorFind) F(VectorFindEx) \
    F(VectorGet) F(VectorGetCapacity) F(VectorGetMutable) F(VectorGetPointer) F(VectorGetPointerMutable) F(VectorGetSize) \
    F(VectorInitCustomBuffer) F(VectorInitEx) F(VectorInsert) F(VectorInsertRange) F(VectorPopBack) F(VectorPushBack) F(VectorReserve) \
    F(VectorResize) F(VectorResizeEx) F(VectorSet) F(VectorShrinkToFit) F(VectorSwapElements)

extern "C" {
#define F(n) decltype(Zyan##n) nl_Zyan##n;
API_LIST(F)
#undef F
}
struct Api {
#define F(n) decltype(&::Zyan##n) p_##n;
    API_LIST(F)
#undef F
};
static const Api API_REG = {
#define F(n) &::Zyan##n,
    API_LIST(F)
#undef F
};
static const Api API_NL = {
#define F(n) &::nl_Zyan##n,
    API_LIST(F)
#undef F
};
static const Api* g_api = &API_REG;
template <class T> struct Rec;
template <class R, class... P> struct Rec<R (*)(P...)> {
    R (*f)(P...);
    static void log(ZyanStatus s) { Tracker::tr(0x100000000ull + s); }
    static void log(const void* p) { Tracker::tr(p ? 2 : 1); }
    R operator()(P... p) const { R r = f(p...); log(r); return r; }
};
template <class T> static inline Rec<T> rec(T f) { return Rec<T>{f}; }
#define ZyanArgParseEx (rec(g_api->p_ArgParseEx))
#define ZyanBitsetAND (rec(g_api->p_BitsetAND))
#define ZyanBitsetAll (rec(g_api->p_BitsetAll))
#define ZyanBitsetAny (rec(g_api->p_BitsetAny))
#define ZyanBitsetAssign (rec(g_api->p_BitsetAssign))
#define ZyanBitsetClear (rec(g_api->p_BitsetClear))
#define ZyanBitsetCount (rec(g_api->p_BitsetCount))
#define ZyanBitsetDestroy (rec(g_api->p_BitsetDestroy))
#define ZyanBitsetFlip (rec(g_api->p_BitsetFlip))
#define ZyanBitsetGetCapacity (rec(g_api->p_BitsetGetCapacity))
#define ZyanBitsetGetCapacityBytes (rec(g_api->p_BitsetGetCapacityBytes))
#define ZyanBitsetGetSize (rec(g_api->p_BitsetGetSize))
#define ZyanBitsetGetSizeBytes (rec(g_api->p_BitsetGetSizeBytes))
#define ZyanBitsetInitBuffer (rec(g_api->p_BitsetInitBuffer))
#define ZyanBitsetInitEx (rec(g_api->p_BitsetInitEx))
#define ZyanBitsetNone (rec(g_api->p_BitsetNone))
#define ZyanBitsetOR (rec(g_api->p_BitsetOR))
#define ZyanBitsetPerformByteOperation (rec(g_api->p_BitsetPerformByteOperation))
#define ZyanBitsetPop (rec(g_api->p_BitsetPop))
#define ZyanBitsetPush (rec(g_api->p_BitsetPush))
#define ZyanBitsetReserve (rec(g_api->p_BitsetReserve))
#define ZyanBitsetReset (rec(g_api->p_BitsetReset))
#define ZyanBitsetResetAll (rec(g_api->p_BitsetResetAll))
#define ZyanBitsetSet (rec(g_api->p_BitsetSet))
#define ZyanBitsetSetAll (rec(g_api->p_BitsetSetAll))
#define ZyanBitsetShrinkToFit (rec(g_api->p_BitsetShrinkToFit))
#define ZyanBitsetTest (rec(g_api->p_BitsetTest))
#define ZyanBitsetTestLSB (rec(g_api->p_BitsetTestLSB))
#define ZyanBitsetTestMSB (rec(g_api->p_BitsetTestMSB))
#define ZyanBitsetToggle (rec(g_api->p_BitsetToggle))
#define ZyanBitsetXOR (rec(g_api->p_BitsetXOR))
#define ZyanListClear (rec(g_api->p_ListClear))
#define ZyanListDestroy (rec(g_api->p_ListDestroy))
#define ZyanListEmplaceBack (rec(g_api->p_ListEmplaceBack))
#define ZyanListEmplaceFront (rec(g_api->p_ListEmplaceFront))
#define ZyanListGetHeadNode (rec(g_api->p_ListGetHeadNode))
#define ZyanListGetNextNode (rec(g_api->p_ListGetNextNode))
#define ZyanListGetNodeData (rec(g_api->p_ListGetNodeData))
#define ZyanListGetNodeDataEx (rec(g_api->p_ListGetNodeDataEx))
#define ZyanListGetNodeDataMutable (rec(g_api->p_ListGetNodeDataMutable))
#define ZyanListGetNodeDataMutableEx (rec(g_api->p_ListGetNodeDataMutableEx))
#define ZyanListGetPrevNode (rec(g_api->p_ListGetPrevNode))
#define ZyanListGetSize (rec(g_api->p_ListGetSize))
#define ZyanListGetTailNode (rec(g_api->p_ListGetTailNode))
#define ZyanListInitCustomBuffer (rec(g_api->p_ListInitCustomBuffer))
#define ZyanListInitEx (rec(g_api->p_ListInitEx))
#define ZyanListPopBack (rec(g_api->p_ListPopBack))
#define ZyanListPopFront (rec(g_api->p_ListPopFront))
#define ZyanListPushBack (rec(g_api->p_ListPushBack))
#define ZyanListPushFront (rec(g_api->p_ListPushFront))
#define ZyanListRemove (rec(g_api->p_ListRemove))
#define ZyanListRemoveRange (rec(g_api->p_ListRemoveRange))
#define ZyanListResize (rec(g_api->p_ListResize))
#define ZyanListResizeEx (rec(g_api->p_ListResizeEx))
#define ZyanListSetNodeData (rec(g_api->p_ListSetNodeData))
#define ZyanStringAppend (rec(g_api->p_StringAppend))
#define ZyanStringAppendDecS (rec(g_api->p_StringAppendDecS))
#define ZyanStringAppendDecU (rec(g_api->p_StringAppendDecU))
#define ZyanStringAppendEx (rec(g_api->p_StringAppendEx))
#define ZyanStringAppendHexS (rec(g_api->p_StringAppendHexS))
#define ZyanStringAppendHexU (rec(g_api->p_StringAppendHexU))
#define ZyanStringClear (rec(g_api->p_StringClear))
#define ZyanStringCompare (rec(g_api->p_StringCompare))
#define ZyanStringCompareI (rec(g_api->p_StringCompareI))
#define ZyanStringConcatCustomBuffer (rec(g_api->p_StringConcatCustomBuffer))
#define ZyanStringConcatEx (rec(g_api->p_StringConcatEx))
#define ZyanStringDelete (rec(g_api->p_StringDelete))
#define ZyanStringDestroy (rec(g_api->p_StringDestroy))
#define ZyanStringDuplicateCustomBuffer (rec(g_api->p_StringDuplicateCustomBuffer))
#define ZyanStringDuplicateEx (rec(g_api->p_StringDuplicateEx))
#define ZyanStringGetCapacity (rec(g_api->p_StringGetCapacity))
#define ZyanStringGetChar (rec(g_api->p_StringGetChar))
#define ZyanStringGetCharMutable (rec(g_api->p_StringGetCharMutable))
#define ZyanStringGetData (rec(g_api->p_StringGetData))
#define ZyanStringGetSize (rec(g_api->p_StringGetSize))
#define ZyanStringInitCustomBuffer (rec(g_api->p_StringInitCustomBuffer))
#define ZyanStringInitEx (rec(g_api->p_StringInitEx))
#define ZyanStringInsert (rec(g_api->p_StringInsert))
#define ZyanStringInsertEx (rec(g_api->p_StringInsertEx))
#define ZyanStringLPos (rec(g_api->p_StringLPos))
#define ZyanStringLPosEx (rec(g_api->p_StringLPosEx))
#define ZyanStringLPosI (rec(g_api->p_StringLPosI))
#define ZyanStringLPosIEx (rec(g_api->p_StringLPosIEx))
#define ZyanStringRPos (rec(g_api->p_StringRPos))
#define ZyanStringRPosEx (rec(g_api->p_StringRPosEx))
#define ZyanStringRPosI (rec(g_api->p_StringRPosI))
#define ZyanStringRPosIEx (rec(g_api->p_StringRPosIEx))
#define ZyanStringReserve (rec(g_api->p_StringReserve))
#define ZyanStringResize (rec(g_api->p_StringResize))
#define ZyanStringSetChar (rec(g_api->p_StringSetChar))
#define ZyanStringShrinkToFit (rec(g_api->p_StringShrinkToFit))
#define ZyanStringToLowerCase (rec(g_api->p_StringToLowerCase))
#define ZyanStringToLowerCaseEx (rec(g_api->p_StringToLowerCaseEx))
#define ZyanStringToUpperCase (rec(g_api->p_StringToUpperCase))
#define ZyanStringToUpperCaseEx (rec(g_api->p_StringToUpperCaseEx))
#define ZyanStringTruncate (rec(g_api->p_StringTruncate))
#define ZyanStringViewGetData (rec(g_api->p_StringViewGetData))
#define ZyanStringViewGetSize (rec(g_api->p_StringViewGetSize))
#define ZyanStringViewInsideBuffer (rec(g_api->p_StringViewInsideBuffer))
#define ZyanStringViewInsideBufferEx (rec(g_api->p_StringViewInsideBufferEx))
#define ZyanStringViewInsideView (rec(g_api->p_StringViewInsideView))
#define ZyanStringViewInsideViewEx (rec(g_api->p_StringViewInsideViewEx))
#define ZyanVectorBinarySearch (rec(g_api->p_VectorBinarySearch))
#define ZyanVectorBinarySearchEx (rec(g_api->p_VectorBinarySearchEx))
#define ZyanVectorClear (rec(g_api->p_VectorClear))
#define ZyanVectorDelete (rec(g_api->p_VectorDelete))
#define ZyanVectorDeleteRange (rec(g_api->p_VectorDeleteRange))
#define ZyanVectorDestroy (rec(g_api->p_VectorDestroy))
#define ZyanVectorDuplicateCustomBuffer (rec(g_api->p_VectorDuplicateCustomBuffer))
#define ZyanVectorDuplicateEx (rec(g_api->p_VectorDuplicateEx))
#define ZyanVectorEmplace (rec(g_api->p_VectorEmplace))
#define ZyanVectorEmplaceEx (rec(g_api->p_VectorEmplaceEx))
#define ZyanVectorFind (rec(g_api->p_VectorFind))
#define ZyanVectorFindEx (rec(g_api->p_VectorFindEx))
#define ZyanVectorGet (rec(g_api->p_VectorGet))
#define ZyanVectorGetCapacity (rec(g_api->p_VectorGetCapacity))
#define ZyanVectorGetMutable (rec(g_api->p_VectorGetMutable))
#define ZyanVectorGetPointer (rec(g_api->p_VectorGetPointer))
#define ZyanVectorGetPointerMutable (rec(g_api->p_VectorGetPointerMutable))
#define ZyanVectorGetSize (rec(g_api->p_VectorGetSize))
#define ZyanVectorInitCustomBuffer (rec(g_api->p_VectorInitCustomBuffer))
#define ZyanVectorInitEx (rec(g_api->p_VectorInitEx))
#define ZyanVectorInsert (rec(g_api->p_VectorInsert))
#define ZyanVectorInsertRange (rec(g_api->p_VectorInsertRange))
#define ZyanVectorPopBack (rec(g_api->p_VectorPopBack))
#define ZyanVectorPushBack (rec(g_api->p_VectorPushBack))
#define ZyanVectorReserve (rec(g_api->p_VectorReserve))
#define ZyanVectorResize (rec(g_api->p_VectorResize))
#define ZyanVectorResizeEx (rec(g_api->p_VectorResizeEx))
#define ZyanVectorSet (rec(g_api->p_VectorSet))
#define ZyanVectorShrinkToFit (rec(g_api->p_VectorShrinkToFit))
#define ZyanVectorSwapElements (rec(g_api->p_VectorSwapElements))

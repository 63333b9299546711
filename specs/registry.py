"""All contracts and the map from properties to the functions and lemmas that decide them."""
import os
import text, mem, tree, lemmas, setters, getters, lookup, lists, deepcopy, escape, stringify, parse, wrap
MODS=[text,mem,tree,lemmas,setters,getters,lookup,lists,deepcopy,escape,stringify,parse,wrap]
C={}
for m in MODS: C.update(getattr(m,'C',{}))
for n,c in C.items():
    if n[0]!='#' and not hasattr(c,'langs'): c.langs=('c','c++')
KEEP=()
LEMMAS={}
for m in MODS: LEMMAS.update(getattr(m,'LEMMAS',{}))
COST={'zj_ParseFast':200,'zj_Stringify':60,**{f'zj_Set{w}{l}{f}':6 for w in('NumStr','Str','Key') for l in('','Len') for f in('','Fast')},'zj_SetFast':6,'zj_ValueCopyFrom':30,'zj_Set':12,'zj_ArrayAdd':7,'zj_ObjAdd':7,'zj_ArrayAddFast':5,'zj_ObjAddFast':5,'zj_consumeNum':10,'zj_checkNum':9,'zj_consumeStr':5,'zj_checkStr':5}
SCAN=['zj_peek','zj_likelyPeekAndConsume','zj_unLikelyPeekAndConsume','zj_consumeFalse','zj_consumeTrue','zj_consumeNull','zj_consumeStr','zj_consumeNum','zj_consumeHex','zj_consumeHexOne','zj_hexCodePoint']
CHECK=['zj_checkStr','zj_checkNum','zj_consumeHex','zj_consumeHexOne','zj_hexCodePoint']
ALLOC=['zj_NewAllocator','zj_allocatorAlloc','zj_ReleaseAllocator','zj_Allocator','~zj_Allocator','zj_newString','zj_appendStr','zj_appendChar']
ALLAPI=['c','cshort','cpp','cppshort','member','hpp','hppnew']
TXT=['zj_checkStrLen','zj_checkNumLen']
SETTEXT=[f'zj_Set{w}{l}{f}' for w in('NumStr','Str','Key') for l in('','Len') for f in('','Fast')]
SETNUM=['zj_SetInt','zj_SetLong','zj_SetLongLong','zj_SetDouble','zj_SetNum']
SETKIND=['zj_SetNull','zj_SetBool','zj_SetArray','zj_SetObj']
CONV=['zj_strToInt','zj_strToLong','zj_strToLongLong','zj_strToDouble']
GETNUM=['zj_GetInt','zj_GetLong','zj_GetLongLong','zj_GetDouble','zj_GetNum']
GET=['zj_GetStrFast','zj_GetNumFast','zj_GetKeyFast','zj_IsNull','zj_SizeOf','zj_GetBool','zj_Type','zj_GetStr','zj_GetNumStr','zj_GetKey']
FIND=['zj_strIsEqual','zj_strIsEqualLen','zj_Begin','zj_Next','zj_ArrayGet','zj_ObjGet','zj_ObjGetLen']
LIST=['zj_Move','zj_ArrayAddFast','zj_ObjAddFast','zj_ArrayDel','zj_ObjDel']
COPY=['zj_ValueCopyFrom','zj_Copy','zj_Set','zj_ArrayAdd','zj_ObjAdd']
TREE=COPY+SETKIND+SETTEXT+SETNUM+GET+GETNUM+CONV+FIND+LIST+['zj_SetFast','zj_NewValue']
LT=['body_end','num_end']; LD=['no_cycle']
PARSE=SCAN+['zj_ParseFast','zj_ParseLen','zj_Parse']; LP=['ws_idem','str_valid','num_valid','no_cycle']
SETESC=['zj_SetStrEscape','zj_SetStrLenEscape','zj_SetKeyEscape','zj_SetKeyLenEscape']; ESC=['zj_escapeStr','zj_escapeStrLen']+SETESC
UNE=['zj_hexCodePointForUnEscape','zj_consumeHexForUnEscape','zj_addUTF8','zj_unEscapeStr','zj_GetUnEscapeStr','zj_GetUnEscapeKey']
LE=['el_positive','utf8_ascii']
BUILD=['zj_newString','zj_appendStr','zj_appendChar','zj_Stringify']; LS=['append_agree']
PROPS={
 'C01':dict(functions=PARSE,lemmas=LP),
 'C02':dict(functions=PARSE,lemmas=LP),
 'C03':dict(functions=PARSE,lemmas=LP),
 'C04':dict(functions=PARSE+CHECK+TXT,lemmas=LT+LP),
 'C05':dict(functions=BUILD,lemmas=LT+LD+LS),
 'C06':dict(functions=TREE+ESC+UNE+BUILD+PARSE,lemmas=LT+LP+LE+LS),
 'C07':dict(functions=LIST+FIND+COPY,lemmas=LT+LD),
 'C08':dict(functions=COPY+['zj_NewValue'],lemmas=LT+LD),
 'C09':dict(functions=CHECK+TXT+SETTEXT,lemmas=LT+LD),
 'C10':dict(functions=ESC+['zj_SetStrFast','zj_SetKeyFast']+CHECK+UNE,lemmas=LT+LD+LE+['decode_unique']),
 'C11':dict(functions=UNE,lemmas=LT),
 'C12':dict(functions=CONV+GETNUM+SETNUM,lemmas=LT+LD),
 'C13':dict(functions=ALLOC),
 'C14':dict(functions=GET+GETNUM+CONV+UNE,lemmas=LT),
 'C15':dict(functions=FIND,lemmas=LT),
 'C16':dict(functions=SETKIND+SETTEXT+SETNUM+['zj_SetFast','zj_Move']+COPY[:1]+['zj_Set']+ESC,lemmas=LT+LD+LE),
 'C17':dict(functions=ALLOC,lemmas=list(wrap.LEMMAS),extra=[wrap.readings],apis=ALLAPI),
 'C18':dict(functions=TREE+TXT+ALLOC+ESC+UNE+['zj_Stringify']+PARSE,lemmas=LT+LP+LE+LS),
}
def closure(fs): 
    out=[]
    for f in fs:
        if f not in out: out.append(f)
    return out
TRUSTED=['engine/ (front end ir.py, symbolic executor sym.py: verification condition generator over LLVM IR)','clang 18 -O0 front end and LLVM passes sroa, always-inline, early-cse, simplifycfg, instsimplify, adce, loop-simplify','z3 (python3-vt z3-solver)']
ASSUMPTIONS=['callers keep the documented preconditions: live handles, NUL-terminated or length-given readable texts, no text or document beyond 2^28 bytes, no value inserted below itself',
 'malloc never returns NULL (C19 is not claimed)','unaligned accesses behave as on x86-64','typed objects come only from fresh allocator blocks (enforced by the executor), so fields of different objects do not overlap']
def trusted_text(n): return n+': '+C[n].doc
def backend():
    import z3; return 'z3 '+z3.get_version_string()
def known(prop):
    p=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'known_findings.txt'); out=[]
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property='+prop+' '): out.append(l.split(' ',2)[2].strip())
    return out

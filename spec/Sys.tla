-------------------------------- MODULE Sys --------------------------------
(***************************************************************************)
(* The system's own vocabulary, as the README and doc/architecture.md      *)
(* give it: entities, attributes, and the datums a new database holds.     *)
(***************************************************************************)
EXTENDS Values

DbIdent == 1
AttrType == 2
AttrUnique == 3
AttrCardinality == 4
Tx == 5
TxAt == 6
UniqueIdentity == 7
UniqueValue == 8
CardinalityOne == 9
CardinalityMany == 10
TypeRef == 11
TypeString == 12
TypeInt == 13
TypeBool == 14
TypeInst == 15
TypeFloat == 16
AttrRefType == 17
RefTypeDependent == 18
DbRank == 19
FirstUserID == 1048576

(* The tag of the values of an attribute type. *)
TagOf(t) ==
  CASE t = TypeRef -> "id" [] t = TypeString -> "str" [] t = TypeInt -> "int"
    [] t = TypeBool -> "bool" [] t = TypeInst -> "inst" [] t = TypeFloat -> "float"
    [] OTHER -> "none"

ValidTypes == {Ref(TypeRef), Ref(TypeString), Ref(TypeInt), Ref(TypeBool), Ref(TypeInst), Ref(TypeFloat)}
ValidUniques == {Ref(UniqueIdentity), Ref(UniqueValue)}
ValidCardinalities == {Ref(CardinalityOne), Ref(CardinalityMany)}

SysIdents == {
  <<DbIdent, "sys/db/ident">>, <<AttrUnique, "sys/attr/unique">>,
  <<UniqueIdentity, "sys/attr/unique/identity">>, <<UniqueValue, "sys/attr/unique/value">>,
  <<TxAt, "sys/tx/at">>, <<AttrType, "sys/attr/type">>, <<TypeRef, "sys/attr/type/ref">>,
  <<TypeString, "sys/attr/type/string">>, <<TypeInst, "sys/attr/type/inst">>,
  <<TypeInt, "sys/attr/type/int">>, <<TypeBool, "sys/attr/type/bool">>,
  <<TypeFloat, "sys/attr/type/float">>, <<AttrCardinality, "sys/attr/cardinality">>,
  <<CardinalityOne, "sys/attr/cardinality/one">>, <<CardinalityMany, "sys/attr/cardinality/many">>,
  <<AttrRefType, "sys/attr/ref/type">>, <<RefTypeDependent, "sys/attr/ref/type/dependent">>,
  <<DbRank, "sys/db/rank">> }

(* Datums are <<entity, attribute, value, transaction>>. *)
SysDatums ==
  {<<p[1], DbIdent, Str(p[2]), Tx>> : p \in SysIdents}
  \cup {<<DbIdent, AttrType, Ref(TypeString), Tx>>, <<DbIdent, AttrUnique, Ref(UniqueIdentity), Tx>>,
        <<AttrUnique, AttrType, Ref(TypeRef), Tx>>, <<TxAt, AttrType, Ref(TypeInst), Tx>>,
        <<AttrType, AttrType, Ref(TypeRef), Tx>>, <<AttrCardinality, AttrType, Ref(TypeRef), Tx>>,
        <<AttrRefType, AttrType, Ref(TypeRef), Tx>>, <<DbRank, AttrType, Ref(TypeInt), Tx>>,
        <<Tx, TxAt, <<"inst", "-62135596800000">>, Tx>>}

IsSysIdent(s) == Len(s) >= 4 /\ SubSeq(s, 1, 4) = "sys/"
=============================================================================

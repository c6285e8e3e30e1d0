//go:build verif

package analysis

import (
	"github.com/john-nguyen09/phpintel/analysis/storage"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
)

// Specification of the records of the indexed symbols (property C02).
//
// A record is a sequence of items. That what is written to an encoder, item by item, is read
// back from a decoder of its bytes, is property C01. Here an encoder is known by the record
// that it will hold in the end: vcGhostGet("written", e) items of it have been written. A
// decoder is known by the record it was made of: vcGhostGet("read", d) items have been read.

//vc:rec
func vcRecord(e *storage.Encoder) int { return 0 }

//vc:rec
func vcSource(d *storage.Decoder) int { return 0 }

// vcItems is the number of items of the record. Only those have a kind.
//
//vc:rec
func vcItems(record int) int { return 0 }

// vcKind is the kind of an item: 1 int, 2 string, 3 bool, 4 location.
//
//vc:rec
func vcKind(record, i int) int { return 0 }

//vc:rec
func vcIntAt(record, i int) int { return 0 }

//vc:rec
func vcStrAt(record, i int) string { return "" }

//vc:rec
func vcBoolAt(record, i int) bool { return false }

//vc:rec
func vcLocAt(record, i int) protocol.Location { return protocol.Location{} }

//vc:trusted (*Encoder).WriteInt
//vc:opt opaque=vcRecord+vcKind+vcIntAt
func vc_WriteInt(e *storage.Encoder, v int) {
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	e.WriteInt(v)
	vcEnsures("written", vcGhostGet("written", e) == n+1 && vcIsInt(vcRecord(e), n, v))
}

//vc:trusted (*Encoder).WriteString
//vc:opt opaque=vcRecord+vcKind+vcStrAt
func vc_WriteString(e *storage.Encoder, v string) {
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	e.WriteString(v)
	vcEnsures("written", vcGhostGet("written", e) == n+1 && vcIsStr(vcRecord(e), n, v))
}

//vc:trusted (*Encoder).WriteBool
//vc:opt opaque=vcRecord+vcKind+vcBoolAt
func vc_WriteBool(e *storage.Encoder, v bool) {
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	e.WriteBool(v)
	vcEnsures("written", vcGhostGet("written", e) == n+1 && vcIsBool(vcRecord(e), n, v))
}

//vc:trusted (*Encoder).WriteLocation
//vc:opt opaque=vcRecord+vcKind+vcLocAt
func vc_WriteLocation(e *storage.Encoder, v protocol.Location) {
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	e.WriteLocation(v)
	vcEnsures("written", vcGhostGet("written", e) == n+1 && vcIsLoc(vcRecord(e), n, v))
}

//vc:trusted (*Decoder).Len
//vc:opt opaque=vcSource+vcItems
func vc_Len(d *storage.Decoder) {
	r := d.Len()
	vcEnsures("left", r >= 0 && (r == 0) == (vcGhostGet("read", d) >= vcItems(vcSource(d))))
}

//vc:trusted (*Decoder).ReadInt
//vc:opt opaque=vcSource+vcItems+vcKind+vcIntAt
func vc_ReadInt(d *storage.Decoder) {
	n := vcGhostGet("read", d)
	vcRequires(vcKind(vcSource(d), n) == 1)
	vcModifiesKey("ghost:read")
	v := d.ReadInt()
	vcEnsures("read", vcGhostGet("read", d) == n+1 && v == vcIntAt(vcSource(d), n))
}

//vc:trusted (*Decoder).ReadString
//vc:opt opaque=vcSource+vcItems+vcKind+vcStrAt
func vc_ReadString(d *storage.Decoder) {
	n := vcGhostGet("read", d)
	vcRequires(vcKind(vcSource(d), n) == 2)
	vcModifiesKey("ghost:read")
	v := d.ReadString()
	vcEnsures("read", vcGhostGet("read", d) == n+1 && v == vcStrAt(vcSource(d), n))
}

//vc:trusted (*Decoder).ReadBool
//vc:opt opaque=vcSource+vcItems+vcKind+vcBoolAt
func vc_ReadBool(d *storage.Decoder) {
	n := vcGhostGet("read", d)
	vcRequires(vcKind(vcSource(d), n) == 3)
	vcModifiesKey("ghost:read")
	v := d.ReadBool()
	vcEnsures("read", vcGhostGet("read", d) == n+1 && v == vcBoolAt(vcSource(d), n))
}

//vc:trusted (*Decoder).ReadLocation
//vc:opt opaque=vcSource+vcItems+vcKind+vcLocAt
func vc_ReadLocation(d *storage.Decoder) {
	n := vcGhostGet("read", d)
	vcRequires(vcKind(vcSource(d), n) == 4)
	vcModifiesKey("ghost:read")
	v := d.ReadLocation()
	vcEnsures("read", vcGhostGet("read", d) == n+1 && v == vcLocAt(vcSource(d), n))
}

// The items of the record at the position are the value.

func vcIsInt(record, n int, v int) bool { return vcKind(record, n) == 1 && vcIntAt(record, n) == v }

func vcIsStr(record, n int, v string) bool {
	return vcKind(record, n) == 2 && vcStrAt(record, n) == v
}

func vcIsBool(record, n int, v bool) bool {
	return vcKind(record, n) == 3 && vcBoolAt(record, n) == v
}

func vcIsLoc(record, n int, v protocol.Location) bool {
	return vcKind(record, n) == 4 && vcLocAt(record, n) == v
}

// vcTypeAt: a type takes three items.
func vcTypeAt(record, n int, t TypeString) bool {
	return vcIsStr(record, n, t.original) && vcIsStr(record, n+1, t.fqn) && vcIsInt(record, n+2, t.arrayLevel)
}

// vcTypesAt: the number of types, and the types in their order.
func vcTypesAt(record, n int, ts []TypeString) bool {
	return vcIsInt(record, n, len(ts)) && vcForall(0, len(ts), func(i int) bool { return vcTypeAt(record, n+1+3*i, ts[i]) })
}

// vcTagAt: whether the symbol is deprecated, and the tag if so.
func vcTagAt(record, n int, t *tag) bool {
	return vcIsBool(record, n, t != nil) && vcImp(t != nil, vcIsStr(record, n+1, t.Name) && vcIsStr(record, n+2, t.Description))
}

func vcTagLen(t *tag) int {
	if t == nil {
		return 1
	}
	return 3
}

// vcTypeLike: the record has a type at the position.
func vcTypeLike(record, n int) bool {
	return vcKind(record, n) == 2 && vcKind(record, n+1) == 2 && vcKind(record, n+2) == 1
}

// vcAreTypes: the record has a number, and as many types, at the position.
//
//vc:rec
func vcAreTypes(record, n int) bool {
	return vcKind(record, n) == 1 && vcIntAt(record, n) >= 0 &&
		vcForall(0, vcIntAt(record, n), func(i int) bool { return vcTypeLike(record, n+1+3*i) })
}

func vcCompositeAt(record, n int, ts []TypeString) bool {
	return vcIsInt(record, n, len(ts)) && vcAreTypes(record, n) && vcTypesAt(record, n, ts)
}

func vcTagLike(record, n int) bool {
	return vcKind(record, n) == 3 && vcImp(vcBoolAt(record, n), vcKind(record, n+1) == 2 && vcKind(record, n+2) == 2)
}

//vc:contract (TypeString).Write props=C02
//vc:opt opaque=vcRecord+vcKind+vcIntAt+vcStrAt
func vc_TypeString_Write(t TypeString, e *storage.Encoder) {
	vcRequires(e != nil)
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	t.Write(e)
	vcEnsures("written", vcGhostGet("written", e) == n+3 && vcTypeAt(vcRecord(e), n, t))
}

//vc:contract ReadTypeString props=C02
//vc:opt opaque=vcSource+vcItems+vcKind+vcIntAt+vcStrAt
func vc_ReadTypeString(d *storage.Decoder) {
	n := vcGhostGet("read", d)
	vcRequires(d != nil && vcTypeLike(vcSource(d), n))
	vcModifiesKey("ghost:read")
	r := ReadTypeString(d)
	vcEnsures("read", vcGhostGet("read", d) == n+3 && vcTypeAt(vcSource(d), n, r))
}

//vc:contract (*TypeComposite).Write props=C02
//vc:opt opaque=vcRecord+vcKind+vcIntAt+vcStrAt
func vc_TypeComposite_Write(t *TypeComposite, e *storage.Encoder) {
	vcRequires(t != nil && e != nil)
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	t.Write(e)
	vcEnsures("written", vcGhostGet("written", e) == n+1+3*len(t.typeStrings) && vcCompositeAt(vcRecord(e), n, t.typeStrings))
}

//vc:loop (*TypeComposite).Write 0
func vcl_TypeComposite_Write(t *TypeComposite, e *storage.Encoder, c_n, vcI int) {
	vcInv("count", vcIsInt(vcRecord(e), c_n, len(t.typeStrings)))
	vcInv("position", vcGhostGet("written", e) == c_n+1+3*vcI)
	vcInv("types", vcForall(0, vcI, func(i int) bool { return vcTypeAt(vcRecord(e), c_n+1+3*i, t.typeStrings[i]) }))
}

//vc:contract ReadTypeComposite props=C02
//vc:opt opaque=vcSource+vcItems+vcKind+vcIntAt+vcStrAt
func vc_ReadTypeComposite(d *storage.Decoder) {
	n := vcGhostGet("read", d)
	vcRequires(d != nil && vcAreTypes(vcSource(d), n))
	vcModifiesKey("ghost:read")
	r := ReadTypeComposite(d)
	vcEnsures("read", vcGhostGet("read", d) == n+1+3*len(r.typeStrings) && vcCompositeAt(vcSource(d), n, r.typeStrings))
	vcEnsures("own", vcFreshSlice(r.typeStrings))
}

//vc:loop ReadTypeComposite 0
func vcl_ReadTypeComposite(d *storage.Decoder, i, count int, types TypeComposite, c_n int) {
	vcInv("count", count == vcIntAt(vcSource(d), c_n) && 0 <= i && i <= count && len(types.typeStrings) == i)
	vcInv("position", vcGhostGet("read", d) == c_n+1+3*i)
	vcInv("own", vcFreshSlice(types.typeStrings))
	vcInv("types", vcForall(0, i, func(j int) bool { return vcTypeAt(vcSource(d), c_n+1+3*j, types.typeStrings[j]) }))
	vcDecreases(count - i)
}

//vc:contract serialiseDeprecatedTag props=C02
//vc:opt opaque=vcRecord+vcKind+vcStrAt+vcBoolAt
func vc_serialiseDeprecatedTag(e *storage.Encoder, t *tag) {
	vcRequires(e != nil)
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	serialiseDeprecatedTag(e, t)
	vcEnsures("written", vcGhostGet("written", e) == n+vcTagLen(t) && vcTagAt(vcRecord(e), n, t))
}

//vc:contract deserialiseDeprecatedTag props=C02
//vc:opt opaque=vcSource+vcItems+vcKind+vcStrAt+vcBoolAt
func vc_deserialiseDeprecatedTag(d *storage.Decoder) {
	n := vcGhostGet("read", d)
	vcRequires(d != nil && vcTagLike(vcSource(d), n))
	vcModifiesKey("ghost:read")
	r := deserialiseDeprecatedTag(d)
	vcEnsures("read", vcGhostGet("read", d) == n+vcTagLen(r) && vcTagAt(vcSource(d), n, r))
	vcEnsures("tag", vcImp(r != nil, vcFresh(r) && r.TagName == "@deprecated"))
}

// vcParamAt: a parameter takes six items and its types.
func vcParamAt(record, n int, p *Parameter) bool {
	return vcIsLoc(record, n, p.location) && vcIsLoc(record, n+1, p.varLocation) && vcIsBool(record, n+2, p.hasValue) && vcIsStr(record, n+3, p.Name) &&
		vcCompositeAt(record, n+4, p.Type.typeStrings) && vcIsStr(record, n+5+3*len(p.Type.typeStrings), p.Value)
}

func vcParamLike(record, n int) bool {
	return vcKind(record, n) == 4 && vcKind(record, n+1) == 4 && vcKind(record, n+2) == 3 && vcKind(record, n+3) == 2 &&
		vcAreTypes(record, n+4) && vcKind(record, n+5+3*vcIntAt(record, n+4)) == 2
}

// vcParamPos is the position of the parameter i of those that start at the position.
//
//vc:rec
func vcParamPos(record, n, i int) int {
	if i <= 0 {
		return n
	}
	p := vcParamPos(record, n, i-1)
	return p + 6 + 3*vcIntAt(record, p+4)
}

//vc:contract (*Parameter).Write props=C02
//vc:opt opaque=vcAreTypes+vcRecord+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_Parameter_Write(s *Parameter, e *storage.Encoder) {
	vcRequires(s != nil && e != nil)
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	s.Write(e)
	vcEnsures("written", vcGhostGet("written", e) == n+6+3*len(s.Type.typeStrings) && vcParamAt(vcRecord(e), n, s))
}

//vc:contract ReadParameter props=C02
//vc:opt opaque=vcAreTypes+vcSource+vcItems+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_ReadParameter(d *storage.Decoder) {
	n := vcGhostGet("read", d)
	vcRequires(d != nil && vcParamLike(vcSource(d), n))
	vcModifiesKey("ghost:read")
	r := ReadParameter(d)
	vcEnsures("read", r != nil && vcFresh(r) && vcGhostGet("read", d) == n+6+3*len(r.Type.typeStrings) && vcParamAt(vcSource(d), n, r))
}

// vcClassAt: the record of a class.
func vcClassAt(record, n int, a *Class) bool {
	return vcIsLoc(record, n, a.Location) &&
		vcIsLoc(record, n+1, a.refLocation) &&
		vcIsInt(record, n+2, int(a.Modifier)) &&
		vcIsStr(record, n+3, a.description) &&
		vcTypeAt(record, n+4, a.Name) &&
		vcTypeAt(record, n+7, a.Extends) &&
		vcTypesAt(record, n+10, a.Interfaces) &&
		vcTypesAt(record, n+3*len(a.Interfaces)+11, a.Use) &&
		vcTagAt(record, n+3*len(a.Interfaces)+3*len(a.Use)+12, a.deprecatedTag)
}

func vcClassEnd(record, n int, a *Class) int {
	return n + 3*len(a.Interfaces) + 3*len(a.Use) + vcTagLen(a.deprecatedTag) + 12
}

//vc:contract (*Class).Serialise props=C02
//vc:opt opaque=vcAreTypes+vcRecord+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_Class_Serialise(s *Class, e *storage.Encoder) {
	vcRequires(s != nil && e != nil)
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	s.Serialise(e)
	vcEnsures("all of it", vcGhostGet("written", e) == vcClassEnd(vcRecord(e), n, s))
	vcEnsures("written", vcClassAt(vcRecord(e), n, s))
}

//vc:contract ReadClass props=C02
//vc:opt opaque=vcAreTypes+vcSource+vcItems+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_ReadClass(d *storage.Decoder, s *Class) {
	n := vcGhostGet("read", d)
	vcRequires(d != nil && s != nil && vcClassAt(vcSource(d), n, s) && vcClassEnd(vcSource(d), n, s) == vcItems(vcSource(d)))
	vcModifiesKey("ghost:read")
	r := ReadClass(d)
	vcEnsures("all of it", vcGhostGet("read", d) == vcItems(vcSource(d)))
	vcEnsures("a symbol", r != nil && vcFresh(r))
	vcEnsures("unchanged", r.Location == s.Location && r.refLocation == s.refLocation && r.Modifier == s.Modifier && r.description == s.description && r.Name == s.Name && r.Extends == s.Extends && vcSameTypes(r.Interfaces, s.Interfaces) && vcSameTypes(r.Use, s.Use) && vcSameTag(r.deprecatedTag, s.deprecatedTag))
}

// vcInterfaceAt: the record of an interface.
func vcInterfaceAt(record, n int, a *Interface) bool {
	return vcIsLoc(record, n, a.location) &&
		vcTypeAt(record, n+1, a.Name) &&
		vcTypesAt(record, n+4, a.Extends) &&
		vcIsStr(record, n+3*len(a.Extends)+5, a.description) &&
		vcTagAt(record, n+3*len(a.Extends)+6, a.deprecatedTag)
}

func vcInterfaceEnd(record, n int, a *Interface) int {
	return n + 3*len(a.Extends) + vcTagLen(a.deprecatedTag) + 6
}

//vc:contract (*Interface).Serialise props=C02
//vc:opt opaque=vcAreTypes+vcRecord+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_Interface_Serialise(s *Interface, e *storage.Encoder) {
	vcRequires(s != nil && e != nil)
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	s.Serialise(e)
	vcEnsures("all of it", vcGhostGet("written", e) == vcInterfaceEnd(vcRecord(e), n, s))
	vcEnsures("written", vcInterfaceAt(vcRecord(e), n, s))
}

//vc:contract ReadInterface props=C02
//vc:opt opaque=vcAreTypes+vcSource+vcItems+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_ReadInterface(d *storage.Decoder, s *Interface) {
	n := vcGhostGet("read", d)
	vcRequires(d != nil && s != nil && vcInterfaceAt(vcSource(d), n, s) && vcInterfaceEnd(vcSource(d), n, s) == vcItems(vcSource(d)))
	vcModifiesKey("ghost:read")
	r := ReadInterface(d)
	vcEnsures("all of it", vcGhostGet("read", d) == vcItems(vcSource(d)))
	vcEnsures("a symbol", r != nil && vcFresh(r))
	vcEnsures("unchanged", r.location == s.location && r.Name == s.Name && vcSameTypes(r.Extends, s.Extends) && r.description == s.description && vcSameTag(r.deprecatedTag, s.deprecatedTag))
}

// vcTraitAt: the record of a trait.
func vcTraitAt(record, n int, a *Trait) bool {
	return vcIsLoc(record, n, a.location) &&
		vcTypeAt(record, n+1, a.Name)
}

func vcTraitEnd(record, n int, a *Trait) int {
	return n + 4
}

//vc:contract (*Trait).Serialise props=C02
//vc:opt opaque=vcAreTypes+vcRecord+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_Trait_Serialise(s *Trait, e *storage.Encoder) {
	vcRequires(s != nil && e != nil)
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	s.Serialise(e)
	vcEnsures("all of it", vcGhostGet("written", e) == vcTraitEnd(vcRecord(e), n, s))
	vcEnsures("written", vcTraitAt(vcRecord(e), n, s))
}

//vc:contract ReadTrait props=C02
//vc:opt opaque=vcAreTypes+vcSource+vcItems+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_ReadTrait(d *storage.Decoder, s *Trait) {
	n := vcGhostGet("read", d)
	vcRequires(d != nil && s != nil && vcTraitAt(vcSource(d), n, s) && vcTraitEnd(vcSource(d), n, s) == vcItems(vcSource(d)))
	vcModifiesKey("ghost:read")
	r := ReadTrait(d)
	vcEnsures("all of it", vcGhostGet("read", d) == vcItems(vcSource(d)))
	vcEnsures("a symbol", r != nil && vcFresh(r))
	vcEnsures("unchanged", r.location == s.location && r.Name == s.Name)
}

// vcFunctionAt: the record of a function.
func vcFunctionAt(record, n int, a *Function) bool {
	return vcIsLoc(record, n, a.location) &&
		vcTypeAt(record, n+1, a.Name) &&
		vcIsInt(record, n+4, len(a.Params)) &&
		vcForall(0, len(a.Params), func(i int) bool { return vcParamAt(record, vcParamPos(record, n+5, i), a.Params[i]) }) &&
		vcCompositeAt(record, vcParamPos(record, n+5, len(a.Params)), a.returnTypes.typeStrings) &&
		vcIsStr(record, vcParamPos(record, n+5, len(a.Params))+3*len(a.returnTypes.typeStrings)+1, a.description) &&
		vcTagAt(record, vcParamPos(record, n+5, len(a.Params))+3*len(a.returnTypes.typeStrings)+2, a.deprecatedTag)
}

func vcFunctionEnd(record, n int, a *Function) int {
	return vcParamPos(record, n+5, len(a.Params)) + 3*len(a.returnTypes.typeStrings) + vcTagLen(a.deprecatedTag) + 2
}

//vc:contract (*Function).Serialise props=C02
//vc:opt opaque=vcAreTypes+vcRecord+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_Function_Serialise(s *Function, e *storage.Encoder) {
	vcRequires(s != nil && e != nil && vcForall(0, len(s.Params), func(i int) bool { return s.Params[i] != nil }))
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	s.Serialise(e)
	vcEnsures("all of it", vcGhostGet("written", e) == vcFunctionEnd(vcRecord(e), n, s))
	vcEnsures("written", vcFunctionAt(vcRecord(e), n, s))
}

//vc:contract ReadFunction props=C02
//vc:opt opaque=vcAreTypes+vcSource+vcItems+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_ReadFunction(d *storage.Decoder, s *Function) {
	n := vcGhostGet("read", d)
	vcRequires(d != nil && s != nil && vcForall(0, len(s.Params), func(i int) bool { return s.Params[i] != nil }) && vcFunctionAt(vcSource(d), n, s) && vcFunctionEnd(vcSource(d), n, s) == vcItems(vcSource(d)))
	vcModifiesKey("ghost:read")
	r := ReadFunction(d)
	vcEnsures("all of it", vcGhostGet("read", d) == vcItems(vcSource(d)))
	vcEnsures("a symbol", r != nil && vcFresh(r))
	vcEnsures("unchanged", r.location == s.location && r.Name == s.Name && vcSameParams(r.Params, s.Params) && vcSameTypes(r.returnTypes.typeStrings, s.returnTypes.typeStrings) && r.description == s.description && vcSameTag(r.deprecatedTag, s.deprecatedTag))
}

// vcMethodAt: the record of a method.
func vcMethodAt(record, n int, a *Method) bool {
	return vcIsLoc(record, n, a.location) &&
		vcIsStr(record, n+1, a.Name) &&
		vcIsInt(record, n+2, len(a.Params)) &&
		vcForall(0, len(a.Params), func(i int) bool { return vcParamAt(record, vcParamPos(record, n+3, i), a.Params[i]) }) &&
		vcCompositeAt(record, vcParamPos(record, n+3, len(a.Params)), a.returnTypes.typeStrings) &&
		vcIsStr(record, vcParamPos(record, n+3, len(a.Params))+3*len(a.returnTypes.typeStrings)+1, a.description) &&
		vcTypeAt(record, vcParamPos(record, n+3, len(a.Params))+3*len(a.returnTypes.typeStrings)+2, a.Scope) &&
		vcIsInt(record, vcParamPos(record, n+3, len(a.Params))+3*len(a.returnTypes.typeStrings)+5, int(a.VisibilityModifier)) &&
		vcIsBool(record, vcParamPos(record, n+3, len(a.Params))+3*len(a.returnTypes.typeStrings)+6, a.isStatic) &&
		vcIsInt(record, vcParamPos(record, n+3, len(a.Params))+3*len(a.returnTypes.typeStrings)+7, int(a.ClassModifier)) &&
		vcTagAt(record, vcParamPos(record, n+3, len(a.Params))+3*len(a.returnTypes.typeStrings)+8, a.deprecatedTag)
}

func vcMethodEnd(record, n int, a *Method) int {
	return vcParamPos(record, n+3, len(a.Params)) + 3*len(a.returnTypes.typeStrings) + vcTagLen(a.deprecatedTag) + 8
}

//vc:contract (*Method).Serialise props=C02
//vc:opt opaque=vcAreTypes+vcRecord+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_Method_Serialise(s *Method, e *storage.Encoder) {
	vcRequires(s != nil && e != nil && vcForall(0, len(s.Params), func(i int) bool { return s.Params[i] != nil }))
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	s.Serialise(e)
	vcEnsures("all of it", vcGhostGet("written", e) == vcMethodEnd(vcRecord(e), n, s))
	vcEnsures("written", vcMethodAt(vcRecord(e), n, s))
}

//vc:contract ReadMethod props=C02
//vc:opt opaque=vcAreTypes+vcSource+vcItems+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_ReadMethod(d *storage.Decoder, s *Method) {
	n := vcGhostGet("read", d)
	vcRequires(d != nil && s != nil && vcForall(0, len(s.Params), func(i int) bool { return s.Params[i] != nil }) && vcMethodAt(vcSource(d), n, s) && vcMethodEnd(vcSource(d), n, s) == vcItems(vcSource(d)))
	vcModifiesKey("ghost:read")
	r := ReadMethod(d)
	vcEnsures("all of it", vcGhostGet("read", d) == vcItems(vcSource(d)))
	vcEnsures("a symbol", r != nil && vcFresh(r))
	vcEnsures("unchanged", r.location == s.location && r.Name == s.Name && vcSameParams(r.Params, s.Params) && vcSameTypes(r.returnTypes.typeStrings, s.returnTypes.typeStrings) && r.description == s.description && r.Scope == s.Scope && r.VisibilityModifier == s.VisibilityModifier && r.isStatic == s.isStatic && r.ClassModifier == s.ClassModifier && vcSameTag(r.deprecatedTag, s.deprecatedTag))
}

// vcPropertyAt: the record of a property.
func vcPropertyAt(record, n int, a *Property) bool {
	return vcIsLoc(record, n, a.location) &&
		vcIsStr(record, n+1, a.Name) &&
		vcTypeAt(record, n+2, a.Scope) &&
		vcIsInt(record, n+5, int(a.VisibilityModifier)) &&
		vcIsBool(record, n+6, a.isStatic) &&
		vcCompositeAt(record, n+7, a.Types.typeStrings) &&
		vcIsStr(record, n+3*len(a.Types.typeStrings)+8, a.description) &&
		vcTagAt(record, n+3*len(a.Types.typeStrings)+9, a.deprecatedTag)
}

func vcPropertyEnd(record, n int, a *Property) int {
	return n + 3*len(a.Types.typeStrings) + vcTagLen(a.deprecatedTag) + 9
}

//vc:contract (*Property).Serialise props=C02
//vc:opt opaque=vcAreTypes+vcRecord+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_Property_Serialise(s *Property, e *storage.Encoder) {
	vcRequires(s != nil && e != nil)
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	s.Serialise(e)
	vcEnsures("all of it", vcGhostGet("written", e) == vcPropertyEnd(vcRecord(e), n, s))
	vcEnsures("written", vcPropertyAt(vcRecord(e), n, s))
}

//vc:contract ReadProperty props=C02
//vc:opt opaque=vcAreTypes+vcSource+vcItems+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_ReadProperty(d *storage.Decoder, s *Property) {
	n := vcGhostGet("read", d)
	vcRequires(d != nil && s != nil && vcPropertyAt(vcSource(d), n, s) && vcPropertyEnd(vcSource(d), n, s) == vcItems(vcSource(d)))
	vcModifiesKey("ghost:read")
	r := ReadProperty(d)
	vcEnsures("all of it", vcGhostGet("read", d) == vcItems(vcSource(d)))
	vcEnsures("a symbol", r != nil && vcFresh(r))
	vcEnsures("unchanged", r.location == s.location && r.Name == s.Name && r.Scope == s.Scope && r.VisibilityModifier == s.VisibilityModifier && r.isStatic == s.isStatic && vcSameTypes(r.Types.typeStrings, s.Types.typeStrings) && r.description == s.description && vcSameTag(r.deprecatedTag, s.deprecatedTag))
}

// vcClassConstAt: the record of a classconst.
func vcClassConstAt(record, n int, a *ClassConst) bool {
	return vcIsLoc(record, n, a.location) &&
		vcIsStr(record, n+1, a.description) &&
		vcIsStr(record, n+2, a.Name) &&
		vcIsStr(record, n+3, a.Value) &&
		vcTypeAt(record, n+4, a.Scope) &&
		vcTagAt(record, n+7, a.deprecatedTag) &&
		vcIsInt(record, n+vcTagLen(a.deprecatedTag)+7, int(a.VisibilityModifier))
}

func vcClassConstEnd(record, n int, a *ClassConst) int {
	return n + vcTagLen(a.deprecatedTag) + 8
}

//vc:contract (*ClassConst).Serialise props=C02
//vc:opt opaque=vcAreTypes+vcRecord+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_ClassConst_Serialise(s *ClassConst, e *storage.Encoder) {
	vcRequires(s != nil && e != nil)
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	s.Serialise(e)
	vcEnsures("all of it", vcGhostGet("written", e) == vcClassConstEnd(vcRecord(e), n, s))
	vcEnsures("written", vcClassConstAt(vcRecord(e), n, s))
}

//vc:contract ReadClassConst props=C02
//vc:opt opaque=vcAreTypes+vcSource+vcItems+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_ReadClassConst(d *storage.Decoder, s *ClassConst) {
	n := vcGhostGet("read", d)
	vcRequires(d != nil && s != nil && vcClassConstAt(vcSource(d), n, s) && vcClassConstEnd(vcSource(d), n, s) == vcItems(vcSource(d)))
	vcModifiesKey("ghost:read")
	r := ReadClassConst(d)
	vcEnsures("all of it", vcGhostGet("read", d) == vcItems(vcSource(d)))
	vcEnsures("a symbol", r != nil && vcFresh(r))
	vcEnsures("unchanged", r.location == s.location && r.description == s.description && r.Name == s.Name && r.Value == s.Value && r.Scope == s.Scope && vcSameTag(r.deprecatedTag, s.deprecatedTag) && r.VisibilityModifier == s.VisibilityModifier)
}

// vcConstAt: the record of a const.
func vcConstAt(record, n int, a *Const) bool {
	return vcIsLoc(record, n, a.location) &&
		vcIsStr(record, n+1, a.description) &&
		vcTagAt(record, n+2, a.deprecatedTag) &&
		vcTypeAt(record, n+vcTagLen(a.deprecatedTag)+2, a.Name) &&
		vcIsStr(record, n+vcTagLen(a.deprecatedTag)+5, a.Value)
}

func vcConstEnd(record, n int, a *Const) int {
	return n + vcTagLen(a.deprecatedTag) + 6
}

//vc:contract (*Const).Serialise props=C02
//vc:opt opaque=vcAreTypes+vcRecord+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_Const_Serialise(s *Const, e *storage.Encoder) {
	vcRequires(s != nil && e != nil)
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	s.Serialise(e)
	vcEnsures("all of it", vcGhostGet("written", e) == vcConstEnd(vcRecord(e), n, s))
	vcEnsures("written", vcConstAt(vcRecord(e), n, s))
}

//vc:contract ReadConst props=C02
//vc:opt opaque=vcAreTypes+vcSource+vcItems+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_ReadConst(d *storage.Decoder, s *Const) {
	n := vcGhostGet("read", d)
	vcRequires(d != nil && s != nil && vcConstAt(vcSource(d), n, s) && vcConstEnd(vcSource(d), n, s) == vcItems(vcSource(d)))
	vcModifiesKey("ghost:read")
	r := ReadConst(d)
	vcEnsures("all of it", vcGhostGet("read", d) == vcItems(vcSource(d)))
	vcEnsures("a symbol", r != nil && vcFresh(r))
	vcEnsures("unchanged", r.location == s.location && r.description == s.description && vcSameTag(r.deprecatedTag, s.deprecatedTag) && r.Name == s.Name && r.Value == s.Value)
}

// vcDefineAt: the record of a define.
func vcDefineAt(record, n int, a *Define) bool {
	return vcIsLoc(record, n, a.location) &&
		vcIsStr(record, n+1, a.description) &&
		vcTagAt(record, n+2, a.deprecatedTag) &&
		vcTypeAt(record, n+vcTagLen(a.deprecatedTag)+2, a.Name) &&
		vcIsStr(record, n+vcTagLen(a.deprecatedTag)+5, a.Value)
}

func vcDefineEnd(record, n int, a *Define) int {
	return n + vcTagLen(a.deprecatedTag) + 6
}

//vc:contract (*Define).Serialise props=C02
//vc:opt opaque=vcAreTypes+vcRecord+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_Define_Serialise(s *Define, e *storage.Encoder) {
	vcRequires(s != nil && e != nil)
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	s.Serialise(e)
	vcEnsures("all of it", vcGhostGet("written", e) == vcDefineEnd(vcRecord(e), n, s))
	vcEnsures("written", vcDefineAt(vcRecord(e), n, s))
}

//vc:contract ReadDefine props=C02
//vc:opt opaque=vcAreTypes+vcSource+vcItems+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_ReadDefine(d *storage.Decoder, s *Define) {
	n := vcGhostGet("read", d)
	vcRequires(d != nil && s != nil && vcDefineAt(vcSource(d), n, s) && vcDefineEnd(vcSource(d), n, s) == vcItems(vcSource(d)))
	vcModifiesKey("ghost:read")
	r := ReadDefine(d)
	vcEnsures("all of it", vcGhostGet("read", d) == vcItems(vcSource(d)))
	vcEnsures("a symbol", r != nil && vcFresh(r))
	vcEnsures("unchanged", r.location == s.location && r.description == s.description && vcSameTag(r.deprecatedTag, s.deprecatedTag) && r.Name == s.Name && r.Value == s.Value)
}

// vcGlobalVariableAt: the record of a globalvariable.
func vcGlobalVariableAt(record, n int, a *GlobalVariable) bool {
	return vcIsLoc(record, n, a.location) &&
		vcCompositeAt(record, n+1, a.types.typeStrings) &&
		vcIsStr(record, n+3*len(a.types.typeStrings)+2, a.description) &&
		vcIsStr(record, n+3*len(a.types.typeStrings)+3, a.Name)
}

func vcGlobalVariableEnd(record, n int, a *GlobalVariable) int {
	return n + 3*len(a.types.typeStrings) + 4
}

//vc:contract (*GlobalVariable).Serialise props=C02
//vc:opt opaque=vcAreTypes+vcRecord+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_GlobalVariable_Serialise(s *GlobalVariable, e *storage.Encoder) {
	vcRequires(s != nil && e != nil)
	n := vcGhostGet("written", e)
	vcModifiesKey("ghost:written")
	s.Serialise(e)
	vcEnsures("all of it", vcGhostGet("written", e) == vcGlobalVariableEnd(vcRecord(e), n, s))
	vcEnsures("written", vcGlobalVariableAt(vcRecord(e), n, s))
}

//vc:contract ReadGlobalVariable props=C02
//vc:opt opaque=vcAreTypes+vcSource+vcItems+vcKind+vcIntAt+vcStrAt+vcBoolAt+vcLocAt
func vc_ReadGlobalVariable(d *storage.Decoder, s *GlobalVariable) {
	n := vcGhostGet("read", d)
	vcRequires(d != nil && s != nil && vcGlobalVariableAt(vcSource(d), n, s) && vcGlobalVariableEnd(vcSource(d), n, s) == vcItems(vcSource(d)))
	vcModifiesKey("ghost:read")
	r := ReadGlobalVariable(d)
	vcEnsures("all of it", vcGhostGet("read", d) == vcItems(vcSource(d)))
	vcEnsures("a symbol", r != nil && vcFresh(r))
	vcEnsures("unchanged", r.location == s.location && vcSameTypes(r.types.typeStrings, s.types.typeStrings) && r.description == s.description && r.Name == s.Name)
}

func vcSameTypes(a, b []TypeString) bool {
	return len(a) == len(b) && vcForall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

func vcSameTag(a, b *tag) bool {
	return (a == nil) == (b == nil) && vcImp(a != nil && b != nil, a.Name == b.Name && a.Description == b.Description)
}

func vcSameParam(a, b *Parameter) bool {
	return a != nil && a.location == b.location && a.varLocation == b.varLocation && a.hasValue == b.hasValue && a.Name == b.Name && a.Value == b.Value &&
		vcSameTypes(a.Type.typeStrings, b.Type.typeStrings)
}

func vcSameParams(a, b []*Parameter) bool {
	return len(a) == len(b) && vcForall(0, len(a), func(i int) bool { return vcSameParam(a[i], b[i]) })
}

//vc:loop (*Class).Serialise 0
func vcl_Class_Serialise(s *Class, e *storage.Encoder, c_n, vcI int) {
	r := vcRecord(e)
	vcInv("before", vcIsLoc(r, c_n, s.Location) && vcIsLoc(r, c_n+1, s.refLocation) && vcIsInt(r, c_n+2, int(s.Modifier)) && vcIsStr(r, c_n+3, s.description) &&
		vcTypeAt(r, c_n+4, s.Name) && vcTypeAt(r, c_n+7, s.Extends) && vcIsInt(r, c_n+10, len(s.Interfaces)))
	vcInv("position", vcGhostGet("written", e) == c_n+11+3*vcI)
	vcInv("types", vcForall(0, vcI, func(i int) bool { return vcTypeAt(r, c_n+11+3*i, s.Interfaces[i]) }))
}

//vc:loop (*Class).Serialise 1
func vcl_Class_Serialise_use(s *Class, e *storage.Encoder, c_n, vcI int) {
	r := vcRecord(e)
	m := c_n + 11 + 3*len(s.Interfaces)
	vcInv("before", vcIsLoc(r, c_n, s.Location) && vcIsLoc(r, c_n+1, s.refLocation) && vcIsInt(r, c_n+2, int(s.Modifier)) && vcIsStr(r, c_n+3, s.description) &&
		vcTypeAt(r, c_n+4, s.Name) && vcTypeAt(r, c_n+7, s.Extends) && vcTypesAt(r, c_n+10, s.Interfaces) && vcIsInt(r, m, len(s.Use)))
	vcInv("position", vcGhostGet("written", e) == m+1+3*vcI)
	vcInv("types", vcForall(0, vcI, func(i int) bool { return vcTypeAt(r, m+1+3*i, s.Use[i]) }))
}

//vc:loop ReadClass 0
func vcl_ReadClass(d *storage.Decoder, theClass *Class, i, numInterfaces int, c_n int, c_s *Class) {
	vcInv("count", numInterfaces == len(c_s.Interfaces) && 0 <= i && i <= numInterfaces && len(theClass.Interfaces) == i)
	vcInv("position", vcGhostGet("read", d) == c_n+11+3*i)
	vcInv("own", vcFresh(theClass) && vcFreshSlice(theClass.Interfaces))
	vcInv("types", vcForall(0, i, func(j int) bool { return theClass.Interfaces[j] == c_s.Interfaces[j] }))
	vcDecreases(numInterfaces - i)
}

//vc:loop ReadClass 1
func vcl_ReadClass_use(d *storage.Decoder, theClass *Class, i, numUse int, c_n int, c_s *Class) {
	vcInv("count", numUse == len(c_s.Use) && 0 <= i && i <= numUse && len(theClass.Use) == i)
	vcInv("position", vcGhostGet("read", d) == c_n+12+3*len(c_s.Interfaces)+3*i)
	vcInv("apart", vcDisjoint(theClass.Interfaces, theClass.Use))
	vcInv("interfaces", vcSameTypes(theClass.Interfaces, c_s.Interfaces))
	vcInv("own", vcFresh(theClass) && vcFreshSlice(theClass.Use))
	vcInv("types", vcForall(0, i, func(j int) bool { return theClass.Use[j] == c_s.Use[j] }))
	vcDecreases(numUse - i)
}

//vc:loop (*Interface).Serialise 0
func vcl_Interface_Serialise(s *Interface, e *storage.Encoder, c_n, vcI int) {
	r := vcRecord(e)
	vcInv("before", vcIsLoc(r, c_n, s.location) && vcTypeAt(r, c_n+1, s.Name) && vcIsInt(r, c_n+4, len(s.Extends)))
	vcInv("position", vcGhostGet("written", e) == c_n+5+3*vcI)
	vcInv("types", vcForall(0, vcI, func(i int) bool { return vcTypeAt(r, c_n+5+3*i, s.Extends[i]) }))
}

//vc:loop ReadInterface 0
func vcl_ReadInterface(d *storage.Decoder, theInterface *Interface, i, countExtends int, c_n int, c_s *Interface) {
	vcInv("count", countExtends == len(c_s.Extends) && 0 <= i && i <= countExtends && len(theInterface.Extends) == i)
	vcInv("position", vcGhostGet("read", d) == c_n+5+3*i)
	vcInv("own", vcFresh(theInterface) && vcFreshSlice(theInterface.Extends))
	vcInv("types", vcForall(0, i, func(j int) bool { return theInterface.Extends[j] == c_s.Extends[j] }))
	vcDecreases(countExtends - i)
}

//vc:loop (*Function).Serialise 0
func vcl_Function_Serialise(s *Function, e *storage.Encoder, c_n, vcI int) {
	r := vcRecord(e)
	vcInv("before", vcIsLoc(r, c_n, s.location) && vcTypeAt(r, c_n+1, s.Name) && vcIsInt(r, c_n+4, len(s.Params)))
	vcInv("position", vcGhostGet("written", e) == vcParamPos(r, c_n+5, vcI))
	vcInv("params", vcForall(0, vcI, func(i int) bool { return vcParamAt(r, vcParamPos(r, c_n+5, i), s.Params[i]) }))
}

//vc:loop ReadFunction 0
func vcl_ReadFunction(d *storage.Decoder, function Function, i, countParams int, c_n int, c_s *Function) {
	r := vcSource(d)
	vcInv("count", countParams == len(c_s.Params) && 0 <= i && i <= countParams && len(function.Params) == i)
	vcInv("position", vcGhostGet("read", d) == vcParamPos(r, c_n+5, i))
	vcInv("own", vcFreshSlice(function.Params))
	vcInv("params", vcForall(0, i, func(j int) bool { return vcSameParam(function.Params[j], c_s.Params[j]) }))
	vcDecreases(countParams - i)
}

//vc:loop (*Method).Serialise 0
func vcl_Method_Serialise(s *Method, e *storage.Encoder, c_n, vcI int) {
	r := vcRecord(e)
	vcInv("before", vcIsLoc(r, c_n, s.location) && vcIsStr(r, c_n+1, s.Name) && vcIsInt(r, c_n+2, len(s.Params)))
	vcInv("position", vcGhostGet("written", e) == vcParamPos(r, c_n+3, vcI))
	vcInv("params", vcForall(0, vcI, func(i int) bool { return vcParamAt(r, vcParamPos(r, c_n+3, i), s.Params[i]) }))
}

//vc:loop ReadMethod 0
func vcl_ReadMethod(d *storage.Decoder, method Method, i, countParams int, c_n int, c_s *Method) {
	r := vcSource(d)
	vcInv("count", countParams == len(c_s.Params) && 0 <= i && i <= countParams && len(method.Params) == i)
	vcInv("position", vcGhostGet("read", d) == vcParamPos(r, c_n+3, i))
	vcInv("own", vcFreshSlice(method.Params))
	vcInv("params", vcForall(0, i, func(j int) bool { return vcSameParam(method.Params[j], c_s.Params[j]) }))
	vcDecreases(countParams - i)
}

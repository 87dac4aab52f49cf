// Package xwire is an independent, strict decoder of the client side of
// MySQL's X Protocol: frames and the protobuf messages in them, written from
// the published .proto files and sharing no code with the repository.
// Messages are decoded to a canonical text in which default values are
// dropped, so that two encodings of the same message compare equal.
package xwire

import (
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
)

// Kinds of field.
type kind uint8

const (
	kUint32 kind = iota
	kUint64
	kSint64
	kBool
	kEnum
	kBytes
	kDouble
	kFloat
	kMsg
)

type field struct {
	num      int
	name     string
	kind     kind
	msg      *message
	repeated bool
	required bool
	def      string // canonical default that is dropped
	enum     map[uint64]string
}

type message struct {
	name   string
	fields []field
	byNum  [16]*field
	render func(d *decoded, out []byte) ([]byte, error)
}

type decoded struct {
	m    *message
	vals [16][][]byte // canonical renderings per field number
}

func (d *decoded) has(n int) bool   { return len(d.vals[n]) > 0 }
func (d *decoded) one(n int) []byte { return d.vals[n][0] }
func (d *decoded) str(n int) string { return string(d.vals[n][0]) }
func (d *decoded) count(n int) int  { return len(d.vals[n]) }
func (d *decoded) others(keep ...int) int {
	c := 0
outer:
	for n := range d.vals {
		for _, k := range keep {
			if n == k {
				continue outer
			}
		}
		c += len(d.vals[n])
	}
	return c
}

func build(m *message) *message {
	for i := range m.fields {
		f := &m.fields[i]
		m.byNum[f.num] = f
	}
	return m
}

// AppendBytes renders a byte string.
func AppendBytes(out []byte, b []byte) []byte {
	out = strconv.AppendInt(out, int64(len(b)), 10)
	out = append(out, ':')
	return append(out, b...)
}

// AppendStr renders a string.
func AppendStr(out []byte, s string) []byte {
	out = strconv.AppendInt(out, int64(len(s)), 10)
	out = append(out, ':')
	return append(out, s...)
}

var (
	scalarString = build(&message{name: "String", fields: []field{
		{num: 1, name: "value", kind: kBytes, required: true},
		{num: 2, name: "collation", kind: kUint64, def: "0"},
	}})
	scalarOctets = build(&message{name: "Octets", fields: []field{
		{num: 1, name: "value", kind: kBytes, required: true},
		{num: 2, name: "content_type", kind: kUint32, def: "0"},
	}})
	scalarTypes = map[uint64]string{1: "SINT", 2: "UINT", 3: "NULL", 4: "OCTETS", 5: "DOUBLE", 6: "FLOAT", 7: "BOOL", 8: "STRING"}
	scalar      = build(&message{name: "Scalar", render: renderScalar, fields: []field{
		{num: 1, name: "type", kind: kEnum, required: true, enum: scalarTypes},
		{num: 2, name: "v_signed_int", kind: kSint64},
		{num: 3, name: "v_unsigned_int", kind: kUint64},
		{num: 5, name: "v_octets", kind: kMsg, msg: scalarOctets},
		{num: 6, name: "v_double", kind: kDouble},
		{num: 7, name: "v_float", kind: kFloat},
		{num: 8, name: "v_bool", kind: kBool},
		{num: 9, name: "v_string", kind: kMsg, msg: scalarString},
	}})
	anyMsg = build(&message{name: "Any", render: renderAny, fields: []field{
		{num: 1, name: "type", kind: kEnum, required: true, enum: map[uint64]string{1: "SCALAR"}},
		{num: 2, name: "scalar", kind: kMsg, msg: scalar},
	}})
	columnIdentifier = build(&message{name: "ColumnIdentifier", fields: []field{
		{num: 2, name: "name", kind: kBytes},
		{num: 3, name: "table_name", kind: kBytes},
		{num: 4, name: "schema_name", kind: kBytes},
	}})
	identifier = build(&message{name: "Identifier", fields: []field{
		{num: 1, name: "name", kind: kBytes, required: true},
		{num: 2, name: "schema_name", kind: kBytes},
	}})
	functionCall = &message{name: "FunctionCall"}
	operator     = &message{name: "Operator"}
	expr         = &message{name: "Expr"}
	collection   = build(&message{name: "Collection", fields: []field{
		{num: 1, name: "name", kind: kBytes, required: true},
		{num: 2, name: "schema", kind: kBytes},
	}})
	column = build(&message{name: "Column", fields: []field{
		{num: 1, name: "name", kind: kBytes},
		{num: 2, name: "alias", kind: kBytes},
	}})
	dataModel = map[uint64]string{1: "DOCUMENT", 2: "TABLE"}

	typedRow, updateOperation, stmtExecute, insert, update, del, prepareOneOf, prepare, execute, deallocate,
	condition, expectOpen, empty, reset, authStart, authContinue, capabilitiesSet, capabilities, capability *message
)

// ClientMessages names by type id.
var ClientMessages = map[byte]struct {
	Name string
	m    func() *message
}{
	2:  {"CON_CAPABILITIES_SET", func() *message { return capabilitiesSet }},
	4:  {"SESS_AUTHENTICATE_START", func() *message { return authStart }},
	5:  {"SESS_AUTHENTICATE_CONTINUE", func() *message { return authContinue }},
	6:  {"SESS_RESET", func() *message { return reset }},
	12: {"SQL_STMT_EXECUTE", func() *message { return stmtExecute }},
	18: {"CRUD_INSERT", func() *message { return insert }},
	19: {"CRUD_UPDATE", func() *message { return update }},
	20: {"CRUD_DELETE", func() *message { return del }},
	24: {"EXPECT_OPEN", func() *message { return expectOpen }},
	25: {"EXPECT_CLOSE", func() *message { return empty }},
	40: {"PREPARE_PREPARE", func() *message { return prepare }},
	41: {"PREPARE_EXECUTE", func() *message { return execute }},
	42: {"PREPARE_DEALLOCATE", func() *message { return deallocate }},
}

func init() {
	functionCall.fields = []field{
		{num: 1, name: "name", kind: kMsg, msg: identifier, required: true},
		{num: 2, name: "param", kind: kMsg, msg: expr, repeated: true},
	}
	functionCall.render = renderFunc
	build(functionCall)
	operator.fields = []field{
		{num: 1, name: "name", kind: kBytes, required: true},
		{num: 2, name: "param", kind: kMsg, msg: expr, repeated: true},
	}
	operator.render = renderOp
	build(operator)
	expr.fields = []field{
		{num: 1, name: "type", kind: kEnum, required: true, enum: map[uint64]string{1: "IDENT", 2: "LITERAL", 3: "VARIABLE", 4: "FUNC_CALL", 5: "OPERATOR", 6: "PLACEHOLDER"}},
		{num: 2, name: "identifier", kind: kMsg, msg: columnIdentifier},
		{num: 3, name: "variable", kind: kBytes},
		{num: 4, name: "literal", kind: kMsg, msg: scalar},
		{num: 5, name: "function_call", kind: kMsg, msg: functionCall},
		{num: 6, name: "operator", kind: kMsg, msg: operator},
		{num: 7, name: "position", kind: kUint32},
	}
	expr.render = renderExpr
	build(expr)
	typedRow = build(&message{name: "Row", fields: []field{{num: 1, name: "field", kind: kMsg, msg: expr, repeated: true}}})
	updateOperation = build(&message{name: "Op", fields: []field{
		{num: 1, name: "source", kind: kMsg, msg: columnIdentifier, required: true},
		{num: 2, name: "operation", kind: kEnum, required: true, enum: map[uint64]string{1: "SET", 2: "ITEM_REMOVE", 3: "ITEM_SET", 4: "ITEM_REPLACE", 5: "ITEM_MERGE", 6: "ARRAY_INSERT", 7: "ARRAY_APPEND", 8: "MERGE_PATCH"}},
		{num: 3, name: "value", kind: kMsg, msg: expr},
	}})
	stmtExecute = build(&message{name: "StmtExecute", fields: []field{
		{num: 1, name: "stmt", kind: kBytes, required: true},
		{num: 2, name: "args", kind: kMsg, msg: anyMsg, repeated: true},
		{num: 3, name: "namespace", kind: kBytes, def: "3:sql"},
		{num: 4, name: "compact_metadata", kind: kBool, def: "false"},
	}})
	insert = build(&message{name: "Insert", fields: []field{
		{num: 1, name: "collection", kind: kMsg, msg: collection, required: true},
		{num: 2, name: "data_model", kind: kEnum, enum: dataModel},
		{num: 3, name: "projection", kind: kMsg, msg: column, repeated: true},
		{num: 4, name: "row", kind: kMsg, msg: typedRow, repeated: true},
		{num: 6, name: "upsert", kind: kBool, def: "false"},
	}})
	update = build(&message{name: "Update", fields: []field{
		{num: 2, name: "collection", kind: kMsg, msg: collection, required: true},
		{num: 3, name: "data_model", kind: kEnum, enum: dataModel},
		{num: 4, name: "criteria", kind: kMsg, msg: expr},
		{num: 7, name: "operation", kind: kMsg, msg: updateOperation, repeated: true},
	}})
	del = build(&message{name: "Delete", fields: []field{
		{num: 1, name: "collection", kind: kMsg, msg: collection, required: true},
		{num: 2, name: "data_model", kind: kEnum, enum: dataModel},
		{num: 3, name: "criteria", kind: kMsg, msg: expr},
	}})
	prepareOneOf = build(&message{name: "OneOf", fields: []field{
		{num: 1, name: "type", kind: kEnum, required: true, enum: map[uint64]string{0: "FIND", 1: "INSERT", 2: "UPDATE", 4: "DELETE", 5: "STMT"}},
		{num: 6, name: "stmt_execute", kind: kMsg, msg: stmtExecute},
	}})
	prepare = build(&message{name: "Prepare", fields: []field{
		{num: 1, name: "stmt_id", kind: kUint32, required: true},
		{num: 2, name: "stmt", kind: kMsg, msg: prepareOneOf, required: true},
	}})
	execute = build(&message{name: "Execute", fields: []field{
		{num: 1, name: "stmt_id", kind: kUint32, required: true},
		{num: 2, name: "args", kind: kMsg, msg: anyMsg, repeated: true},
		{num: 3, name: "compact_metadata", kind: kBool, def: "false"},
	}})
	deallocate = build(&message{name: "Deallocate", fields: []field{{num: 1, name: "stmt_id", kind: kUint32, required: true}}})
	condition = build(&message{name: "Condition", fields: []field{
		{num: 1, name: "key", kind: kUint32, required: true},
		{num: 2, name: "value", kind: kBytes},
		{num: 3, name: "op", kind: kEnum, enum: map[uint64]string{0: "SET", 1: "UNSET"}, def: "SET"},
	}})
	expectOpen = build(&message{name: "Open", fields: []field{
		{num: 1, name: "op", kind: kEnum, enum: map[uint64]string{0: "COPY_PREV", 1: "EMPTY"}, def: "COPY_PREV"},
		{num: 2, name: "cond", kind: kMsg, msg: condition, repeated: true},
	}})
	empty = build(&message{name: "Close"})
	reset = build(&message{name: "Reset", fields: []field{{num: 1, name: "keep_open", kind: kBool, def: "false"}}})
	authStart = build(&message{name: "AuthStart", fields: []field{
		{num: 1, name: "mech_name", kind: kBytes, required: true},
		{num: 2, name: "auth_data", kind: kBytes},
		{num: 3, name: "initial_response", kind: kBytes},
	}})
	authContinue = build(&message{name: "AuthContinue", fields: []field{{num: 1, name: "auth_data", kind: kBytes, required: true}}})
	capability = build(&message{name: "Capability", fields: []field{
		{num: 1, name: "name", kind: kBytes, required: true},
		{num: 2, name: "value", kind: kMsg, msg: anyMsg, required: true},
	}})
	capabilities = build(&message{name: "Capabilities", fields: []field{{num: 1, name: "capabilities", kind: kMsg, msg: capability, repeated: true}}})
	capabilitiesSet = build(&message{name: "CapabilitiesSet", fields: []field{{num: 1, name: "capabilities", kind: kMsg, msg: capabilities, required: true}}})
}

func renderScalar(d *decoded, out []byte) ([]byte, error) {
	want := map[string]int{"SINT": 2, "UINT": 3, "NULL": 1, "OCTETS": 5, "DOUBLE": 6, "FLOAT": 7, "BOOL": 8, "STRING": 9}[d.str(1)]
	if want == 0 || !d.has(want) || d.others(1, want) != 0 {
		return nil, fmt.Errorf("scalar of type %s does not carry exactly its own value", d.str(1))
	}
	out = append(out, d.one(1)...)
	if want != 1 {
		out = append(out, '(')
		out = append(out, d.one(want)...)
		out = append(out, ')')
	}
	return out, nil
}

func renderAny(d *decoded, out []byte) ([]byte, error) {
	if !d.has(2) {
		return nil, fmt.Errorf("Any without a scalar")
	}
	return append(out, d.one(2)...), nil
}

func renderExpr(d *decoded, out []byte) ([]byte, error) {
	want := map[string]int{"IDENT": 2, "VARIABLE": 3, "LITERAL": 4, "FUNC_CALL": 5, "OPERATOR": 6, "PLACEHOLDER": 7}[d.str(1)]
	if want == 0 || !d.has(want) || d.others(1, want) != 0 {
		return nil, fmt.Errorf("Expr of type %s does not carry exactly its own member", d.str(1))
	}
	switch want {
	case 4, 5, 6:
		return append(out, d.one(want)...), nil
	}
	out = append(out, d.one(1)...)
	out = append(out, '(')
	out = append(out, d.one(want)...)
	return append(out, ')'), nil
}

func renderParams(d *decoded, out []byte) []byte {
	out = append(out, '(')
	for i, p := range d.vals[2] {
		if i > 0 {
			out = append(out, ',')
		}
		out = append(out, p...)
	}
	return append(out, ')')
}

func renderFunc(d *decoded, out []byte) ([]byte, error) {
	out = append(out, "FUNC["...)
	out = append(out, d.one(1)...)
	out = append(out, ']')
	return renderParams(d, out), nil
}

func renderOp(d *decoded, out []byte) ([]byte, error) {
	out = append(out, "OP["...)
	name := d.one(1)
	switch string(name) { // the server knows these operators under two names
	case "11:between_not":
		name = []byte("11:not_between")
	case "3:not":
		name = []byte("1:!")
	}
	out = append(out, name...)
	out = append(out, ']')
	return renderParams(d, out), nil
}

func uvarint(b []byte) (uint64, int, error) {
	var x uint64
	for i := 0; i < len(b); i++ {
		if i == 10 || (i == 9 && b[i] > 1) {
			return 0, 0, fmt.Errorf("varint overflows 64 bits")
		}
		x |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			return x, i + 1, nil
		}
	}
	return 0, 0, fmt.Errorf("truncated varint")
}

func (m *message) decode(b []byte, out []byte, depth int) ([]byte, error) {
	if depth > 2000 {
		return nil, fmt.Errorf("nested too deeply")
	}
	d := decoded{m: m}
	for len(b) > 0 {
		key, n, err := uvarint(b)
		if err != nil {
			return nil, fmt.Errorf("%s: key: %w", m.name, err)
		}
		b = b[n:]
		num, wt := key>>3, key&7
		if num == 0 || num >= 16 || m.byNum[num] == nil {
			return nil, fmt.Errorf("%s: unknown field %d", m.name, num)
		}
		f := m.byNum[num]
		var v []byte
		switch f.kind {
		case kUint32, kUint64, kSint64, kBool, kEnum:
			if wt != 0 {
				return nil, fmt.Errorf("%s.%s: wire type %d", m.name, f.name, wt)
			}
			x, n, err := uvarint(b)
			if err != nil {
				return nil, fmt.Errorf("%s.%s: %w", m.name, f.name, err)
			}
			b = b[n:]
			switch f.kind {
			case kUint32:
				if x > math.MaxUint32 {
					return nil, fmt.Errorf("%s.%s: %d exceeds 32 bits", m.name, f.name, x)
				}
				v = strconv.AppendUint(nil, x, 10)
			case kUint64:
				v = strconv.AppendUint(nil, x, 10)
			case kSint64:
				v = strconv.AppendInt(nil, int64(x>>1)^-int64(x&1), 10)
			case kBool:
				v = strconv.AppendBool(nil, x != 0)
			case kEnum:
				s, ok := f.enum[x]
				if !ok {
					return nil, fmt.Errorf("%s.%s: unknown enum value %d", m.name, f.name, x)
				}
				v = []byte(s)
			}
		case kDouble:
			if wt != 1 || len(b) < 8 {
				return nil, fmt.Errorf("%s.%s: bad double", m.name, f.name)
			}
			v = strconv.AppendUint(nil, binary.LittleEndian.Uint64(b), 16)
			b = b[8:]
		case kFloat:
			if wt != 5 || len(b) < 4 {
				return nil, fmt.Errorf("%s.%s: bad float", m.name, f.name)
			}
			v = strconv.AppendUint(nil, uint64(binary.LittleEndian.Uint32(b)), 16)
			b = b[4:]
		case kBytes, kMsg:
			if wt != 2 {
				return nil, fmt.Errorf("%s.%s: wire type %d", m.name, f.name, wt)
			}
			x, n, err := uvarint(b)
			if err != nil {
				return nil, fmt.Errorf("%s.%s: length: %w", m.name, f.name, err)
			}
			b = b[n:]
			if x > uint64(len(b)) {
				return nil, fmt.Errorf("%s.%s: length %d exceeds the %d bytes left", m.name, f.name, x, len(b))
			}
			if f.kind == kBytes {
				v = AppendBytes(make([]byte, 0, int(x)+12), b[:x])
			} else {
				v, err = f.msg.decode(b[:x], nil, depth+1)
				if err != nil {
					return nil, fmt.Errorf("%s.%s: %w", m.name, f.name, err)
				}
			}
			b = b[x:]
		}
		if !f.repeated && len(d.vals[num]) > 0 {
			return nil, fmt.Errorf("%s.%s: given twice", m.name, f.name)
		}
		d.vals[num] = append(d.vals[num], v)
	}
	for i := range m.fields {
		if f := &m.fields[i]; f.required && len(d.vals[f.num]) == 0 {
			return nil, fmt.Errorf("%s.%s: missing", m.name, f.name)
		}
	}
	if m.render != nil {
		return m.render(&d, out)
	}
	out = append(out, m.name...)
	out = append(out, '{')
	for i := range m.fields {
		f := &m.fields[i]
		vs := d.vals[f.num]
		if len(vs) == 0 {
			continue
		}
		if f.repeated {
			out = append(out, f.name...)
			out = append(out, '[')
			for j, v := range vs {
				if j > 0 {
					out = append(out, ',')
				}
				out = append(out, v...)
			}
			out = append(out, "] "...)
			continue
		}
		if f.def != "" && string(vs[0]) == f.def {
			continue
		}
		out = append(out, f.name...)
		out = append(out, '=')
		out = append(out, vs[0]...)
		out = append(out, ' ')
	}
	return append(out, '}'), nil
}

// Frame is one frame of a stream.
type Frame struct {
	Type    byte
	Payload []byte
}

// Frames splits a stream; every byte must be covered.
func Frames(b []byte) ([]Frame, error) {
	var out []Frame
	for off := 0; off < len(b); {
		if len(b)-off < 5 {
			return nil, fmt.Errorf("offset %d: %d trailing bytes are not a frame", off, len(b)-off)
		}
		n := int64(binary.LittleEndian.Uint32(b[off:]))
		if n < 1 || n > int64(len(b)-off-4) {
			return nil, fmt.Errorf("offset %d: frame length %d but %d bytes follow", off, n, len(b)-off-4)
		}
		out = append(out, Frame{b[off+4], b[off+5 : off+4+int(n)]})
		off += 4 + int(n)
	}
	return out, nil
}

// Canon decodes a frame to canonical text.
func (f Frame) Canon() (string, error) {
	cm, ok := ClientMessages[f.Type]
	if !ok {
		return "", fmt.Errorf("unexpected message type %d", f.Type)
	}
	out, err := cm.m().decode(f.Payload, make([]byte, 0, 64+len(f.Payload)), 0)
	if err != nil {
		return "", fmt.Errorf("%s: %w", cm.Name, err)
	}
	return string(out), nil
}

// Canon decodes a stream.
func Canon(b []byte) ([]string, error) {
	fs, err := Frames(b)
	if err != nil {
		return nil, err
	}
	out := make([]string, len(fs))
	for i, f := range fs {
		if out[i], err = f.Canon(); err != nil {
			return nil, fmt.Errorf("message %d: %w", i, err)
		}
	}
	return out, nil
}

// CanonExpr decodes a single expression field "tag len expr" and returns the tag.
func CanonExpr(b []byte) (tag int, s string, err error) { return canonField(b, expr) }

// CanonAny decodes a single Any field.
func CanonAny(b []byte) (tag int, s string, err error) { return canonField(b, anyMsg) }

func canonField(b []byte, m *message) (int, string, error) {
	key, n, err := uvarint(b)
	if err != nil {
		return 0, "", err
	}
	if key&7 != 2 {
		return 0, "", fmt.Errorf("wire type %d", key&7)
	}
	b = b[n:]
	l, n, err := uvarint(b)
	if err != nil {
		return 0, "", err
	}
	b = b[n:]
	if l != uint64(len(b)) {
		return 0, "", fmt.Errorf("length %d but %d bytes follow", l, len(b))
	}
	out, err := m.decode(b, nil, 0)
	return int(key >> 3), string(out), err
}

// BytesFields returns the length-delimited fields of a message that decodes.
func BytesFields(b []byte) map[uint64]string {
	out := map[uint64]string{}
	for len(b) > 0 {
		k, n, err := uvarint(b)
		if err != nil {
			return out
		}
		b = b[n:]
		v, n, err := uvarint(b)
		if err != nil {
			return out
		}
		b = b[n:]
		if k&7 == 2 {
			if v > uint64(len(b)) {
				return out
			}
			out[k>>3] = string(b[:v])
			b = b[v:]
		}
	}
	return out
}

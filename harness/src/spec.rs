//! The class file format (JVMS, Java SE 9, chapter 4 and 6) as data, written from the specification.
//! Both directions of the oracle (the generator's encoder and the reference decoder) use these tables.
use std::sync::OnceLock;

/// B = u1, H = u2, F = u2 access flags, [..] = u2 count and entries, {..} = u1 count and entries,
/// @X = a named structure.
pub const ATTRS: &[(&str, &str)] = &[
    ("ConstantValue", "H"),
    ("Deprecated", ""),
    ("Synthetic", ""),
    ("Signature", "H"),
    ("SourceFile", "H"),
    ("EnclosingMethod", "HH"),
    ("InnerClasses", "[HHHF]"),
    ("BootstrapMethods", "[H[H]]"),
    ("SourceDebugExtension", "@U"),
    ("Exceptions", "[H]"),
    ("LineNumberTable", "[HH]"),
    ("LocalVariableTable", "[HHHHH]"),
    ("LocalVariableTypeTable", "[HHHHH]"),
    ("MethodParameters", "{HF}"),
    ("Module", "HFH[HFH][HF[H]][HF[H]][H][H[H]]"),
    ("ModuleMainClass", "H"),
    ("ModulePackages", "[H]"),
    ("AnnotationDefault", "@E"),
    ("RuntimeVisibleAnnotations", "[@A]"),
    ("RuntimeInvisibleAnnotations", "[@A]"),
    ("RuntimeVisibleParameterAnnotations", "{[@A]}"),
    ("RuntimeInvisibleParameterAnnotations", "{[@A]}"),
    ("RuntimeVisibleTypeAnnotations", "[@T]"),
    ("RuntimeInvisibleTypeAnnotations", "[@T]"),
    ("StackMapTable", "[@S]"),
    ("Code", "@C"),
];

#[derive(Debug, Clone)]
pub enum F {
    U1,
    U2,
    Flags,
    List(u8, Vec<F>),
    Named(char),
}

fn parse_fmt(s: &mut std::iter::Peekable<std::str::Chars>) -> Vec<F> {
    let mut out = vec![];
    while let Some(&c) = s.peek() {
        s.next();
        match c {
            'B' => out.push(F::U1),
            'H' => out.push(F::U2),
            'F' => out.push(F::Flags),
            '[' => out.push(F::List(2, parse_fmt(s))),
            '{' => out.push(F::List(1, parse_fmt(s))),
            ']' | '}' => return out,
            '@' => out.push(F::Named(s.next().unwrap())),
            _ => panic!("bad format {}", c),
        }
    }
    out
}

pub fn attrs() -> &'static Vec<(&'static str, Vec<F>)> {
    static A: OnceLock<Vec<(&'static str, Vec<F>)>> = OnceLock::new();
    A.get_or_init(|| {
        ATTRS
            .iter()
            .map(|(n, f)| (*n, parse_fmt(&mut f.chars().peekable())))
            .collect()
    })
}

pub fn attr_fmt(name: &str) -> Option<(&'static str, &'static [F])> {
    attrs().iter().find(|a| a.0 == name).map(|a| (a.0, &a.1[..]))
}

/// Element value tags with a single index operand.
pub const ELEM_SIMPLE: &[(u8, &str)] = &[
    (b'B', "Byte"),
    (b'C', "Char"),
    (b'D', "Double"),
    (b'F', "Float"),
    (b'I', "Int"),
    (b'J', "Long"),
    (b'S', "Short"),
    (b'Z', "Boolean"),
    (b's', "String"),
    (b'c', "Class"),
];

/// Type annotation targets: tag, kind, operand format ('L' = local variable target table).
pub const TARGETS: &[(u8, &str, &str)] = &[
    (0x00, "TypeParameterClass", "B"),
    (0x01, "TypeParameterMethod", "B"),
    (0x10, "SuperType", "H"),
    (0x11, "TypeParameterBoundClass", "BB"),
    (0x12, "TypeParameterBoundMethod", "BB"),
    (0x13, "Field", ""),
    (0x14, "Return", ""),
    (0x15, "Receiver", ""),
    (0x16, "FormalParameter", "B"),
    (0x17, "Throws", "H"),
    (0x40, "LocalVariable", "L"),
    (0x41, "ResourceVariable", "L"),
    (0x42, "Catch", "H"),
    (0x43, "InstanceOf", "H"),
    (0x44, "New", "H"),
    (0x45, "ConstructorReference", "H"),
    (0x46, "MethodReference", "H"),
    (0x47, "Cast", "HB"),
    (0x48, "ConstructorArgument", "HB"),
    (0x49, "MethodArgument", "HB"),
    (0x4A, "ConstructorReferenceArgument", "HB"),
    (0x4B, "MethodReferenceArgument", "HB"),
];

pub const PATHS: &[&str] = &["Array", "Nested", "Wildcard", "TypeArgument"];

pub const VERIF: &[&str] = &[
    "Top",
    "Integer",
    "Float",
    "Double",
    "Long",
    "Null",
    "UninitializedThis",
    "Object",
    "Uninitialized",
];

pub const ARRAY_TYPES: &[(u8, &str)] = &[
    (4, "boolean"),
    (5, "char"),
    (6, "float"),
    (7, "double"),
    (8, "byte"),
    (9, "short"),
    (10, "int"),
    (11, "long"),
];

pub const REF_KINDS: &[&str] = &[
    "",
    "GetField",
    "GetStatic",
    "PutField",
    "PutStatic",
    "InvokeVirtual",
    "InvokeStatic",
    "InvokeSpecial",
    "NewInvokeSpecial",
    "InvokeInterface",
];

/// Constant tags with plain operands (after the tag byte).
pub const CONSTS: &[(u8, &str, &str)] = &[
    (1, "Utf8", "@"),
    (3, "Integer", "@"),
    (4, "Float", "@"),
    (5, "Long", "@"),
    (6, "Double", "@"),
    (7, "Class", "H"),
    (8, "String", "H"),
    (9, "FieldRef", "HH"),
    (10, "MethodRef", "HH"),
    (11, "InterfaceMethodRef", "HH"),
    (12, "NameAndType", "HH"),
    (15, "MethodHandle", "@"),
    (16, "MethodType", "H"),
    (18, "InvokeDynamic", "HH"),
    (19, "Module", "H"),
    (20, "Package", "H"),
];

/// The instruction set in opcode order from 0x00. Operands after ':':
/// b i1, u u1, s i2, h u2, i i4, z a byte the specification fixes to zero,
/// A array type, T tableswitch, L lookupswitch, W wide.
/// After '=': the kind the library documents one instruction for (long and short forms are one kind).
pub const OPS: &str = "nop aconst_null iconst_m1 iconst_0 iconst_1 iconst_2 iconst_3 iconst_4 iconst_5 \
lconst_0 lconst_1 fconst_0 fconst_1 fconst_2 dconst_0 dconst_1 \
bipush:b sipush:s ldc:u ldc_w:h=ldc ldc2_w:h=ldc \
iload:u lload:u fload:u dload:u aload:u \
iload_0 iload_1 iload_2 iload_3 lload_0 lload_1 lload_2 lload_3 fload_0 fload_1 fload_2 fload_3 \
dload_0 dload_1 dload_2 dload_3 aload_0 aload_1 aload_2 aload_3 \
iaload laload faload daload aaload baload caload saload \
istore:u lstore:u fstore:u dstore:u astore:u \
istore_0 istore_1 istore_2 istore_3 lstore_0 lstore_1 lstore_2 lstore_3 fstore_0 fstore_1 fstore_2 fstore_3 \
dstore_0 dstore_1 dstore_2 dstore_3 astore_0 astore_1 astore_2 astore_3 \
iastore lastore fastore dastore aastore bastore castore sastore \
pop pop2 dup dup_x1 dup_x2 dup2 dup2_x1 dup2_x2 swap \
iadd ladd fadd dadd isub lsub fsub dsub imul lmul fmul dmul idiv ldiv fdiv ddiv irem lrem frem drem \
ineg lneg fneg dneg ishl lshl ishr lshr iushr lushr iand land ior lor ixor lxor iinc:ub \
i2l i2f i2d l2i l2f l2d f2i f2l f2d d2i d2l d2f i2b i2c i2s \
lcmp fcmpl fcmpg dcmpl dcmpg \
ifeq:s ifne:s iflt:s ifge:s ifgt:s ifle:s if_icmpeq:s if_icmpne:s if_icmplt:s if_icmpge:s if_icmpgt:s if_icmple:s \
if_acmpeq:s if_acmpne:s goto:s jsr:s ret:u tableswitch:T lookupswitch:L \
ireturn lreturn freturn dreturn areturn return \
getstatic:h putstatic:h getfield:h putfield:h invokevirtual:h invokespecial:h invokestatic:h \
invokeinterface:huz invokedynamic:hzz new:h newarray:A anewarray:h arraylength athrow checkcast:h instanceof:h \
monitorenter monitorexit wide:W multianewarray:hu ifnull:s ifnonnull:s goto_w:i=goto jsr_w:i=jsr breakpoint";

pub struct Op {
    pub name: &'static str,
    pub kind: &'static str,
    pub args: &'static str,
}

/// Indexed by opcode; None = undefined.
pub fn ops() -> &'static Vec<Option<Op>> {
    static O: OnceLock<Vec<Option<Op>>> = OnceLock::new();
    O.get_or_init(|| {
        let mut v: Vec<Option<Op>> = OPS
            .split_whitespace()
            .map(|w| {
                let (w, kind) = match w.split_once('=') {
                    Some((a, b)) => (a, Some(b)),
                    None => (w, None),
                };
                let (name, args) = w.split_once(':').unwrap_or((w, ""));
                Some(Op { name, kind: kind.unwrap_or(name), args })
            })
            .collect();
        assert_eq!(v.len(), 0xCB);
        assert_eq!(v[0xA9].as_ref().unwrap().name, "ret");
        assert_eq!(v[0x84].as_ref().unwrap().name, "iinc");
        assert_eq!(v[0xC4].as_ref().unwrap().name, "wide");
        while v.len() < 0xFE {
            v.push(None);
        }
        v.push(Some(Op { name: "impdep1", kind: "impdep1", args: "" }));
        v.push(Some(Op { name: "impdep2", kind: "impdep2", args: "" }));
        v
    })
}

/// Opcodes that may follow wide.
pub const WIDE: &[u8] = &[
    0x15, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x84, 0xA9,
];

/// Access flag names of the library and the bits JVMS tables 4.1-B, 4.5-A, 4.6-A, 4.7.6-A, 4.7.24, 4.7.25 give them.
pub const FLAGS: &[(&str, u16)] = &[
    ("PUBLIC", 0x0001),
    ("PRIVATE", 0x0002),
    ("PROTECTED", 0x0004),
    ("STATIC", 0x0008),
    ("FINAL", 0x0010),
    ("SUPER", 0x0020),
    ("SYNCHRONIZED", 0x0020),
    ("VOLATILE", 0x0040),
    ("BRIDGE", 0x0040),
    ("STATIC_PHASE", 0x0040),
    ("TRANSIENT", 0x0080),
    ("VARARGS", 0x0080),
    ("NATIVE", 0x0100),
    ("INTERFACE", 0x0200),
    ("ABSTRACT", 0x0400),
    ("STRICT", 0x0800),
    ("SYNTHETIC", 0x1000),
    ("ANNOTATION", 0x2000),
    ("ENUM", 0x4000),
    ("MODULE", 0x8000),
    ("MANDATED", 0x8000),
];

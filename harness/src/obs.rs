//! Observed results: the library's public types, converted to value trees field by field.
use crate::val::*;
use jbcrs::basic::*;
use jbcrs::{Error, MethodDescriptor, Type, TypeDescriptor};

fn u16s(v: &[u16]) -> V {
    V::L(v.iter().map(|&x| n(x)).collect())
}
fn list<T>(v: &[T], f: impl Fn(&T) -> V) -> V {
    V::L(v.iter().map(f).collect())
}

pub fn item(i: &Item) -> V {
    match *i {
        Item::UTF8(ref s) => t("Utf8", vec![V::S(s.clone())]),
        Item::Integer(x) => t("Integer", vec![n(x)]),
        Item::Float(x) => t("Float", vec![n(x.to_bits())]),
        Item::Long(x) => t("Long", vec![n(x)]),
        Item::Double(x) => t("Double", vec![V::N(x.to_bits() as i64)]),
        Item::Class(x) => t("Class", vec![n(x)]),
        Item::String(x) => t("String", vec![n(x)]),
        Item::FieldRef { class, name_and_type } => t("FieldRef", vec![n(class), n(name_and_type)]),
        Item::MethodRef { class, name_and_type } => t("MethodRef", vec![n(class), n(name_and_type)]),
        Item::InterfaceMethodRef { class, name_and_type } => {
            t("InterfaceMethodRef", vec![n(class), n(name_and_type)])
        }
        Item::NameAndType { name, desc } => t("NameAndType", vec![n(name), n(desc)]),
        Item::MethodHandle { ref kind, index } => t(
            "MethodHandle",
            vec![
                t(
                    match *kind {
                        ReferenceKind::GetField => "GetField",
                        ReferenceKind::GetStatic => "GetStatic",
                        ReferenceKind::PutField => "PutField",
                        ReferenceKind::PutStatic => "PutStatic",
                        ReferenceKind::InvokeVirtual => "InvokeVirtual",
                        ReferenceKind::InvokeStatic => "InvokeStatic",
                        ReferenceKind::InvokeSpecial => "InvokeSpecial",
                        ReferenceKind::NewInvokeSpecial => "NewInvokeSpecial",
                        ReferenceKind::InvokeInterface => "InvokeInterface",
                        _ => "?",
                    },
                    vec![],
                ),
                n(index),
            ],
        ),
        Item::MethodType(x) => t("MethodType", vec![n(x)]),
        Item::InvokeDynamic { bootstrap_method_attribute, name_and_type } => {
            t("InvokeDynamic", vec![n(bootstrap_method_attribute), n(name_and_type)])
        }
        Item::Module(x) => t("Module", vec![n(x)]),
        Item::Package(x) => t("Package", vec![n(x)]),
        _ => t("UnknownItem", vec![V::S(format!("{:?}", i))]),
    }
}

/// The pool as (length, item or none at every index from 1 below the length).
pub fn pool(p: &Pool) -> V {
    let len = p.len();
    let mut v = Vec::with_capacity(len as usize);
    for i in 1..len {
        v.push(match p.get(i) {
            Ok(x) => item(x),
            Err(_) => t("none", vec![]),
        });
    }
    t("Pool", vec![n(len), V::L(v)])
}

pub fn class(c: &Class) -> V {
    t(
        "Class",
        vec![
            n(c.minor_version),
            n(c.major_version),
            n(c.access_flags.bits()),
            n(c.name),
            n(c.super_name),
            u16s(&c.interfaces),
            list(&c.fields, |f| {
                t("Field", vec![n(f.access_flags.bits()), n(f.name), n(f.desc), attrs(&f.attributes)])
            }),
            list(&c.methods, |f| {
                t("Method", vec![n(f.access_flags.bits()), n(f.name), n(f.desc), attrs(&f.attributes)])
            }),
            attrs(&c.attributes),
        ],
    )
}

pub fn attrs(a: &[Attribute]) -> V {
    list(a, attr)
}

pub fn attr(a: &Attribute) -> V {
    use Attribute as A;
    match *a {
        A::AnnotationDefault(ref e) => t("AnnotationDefault", vec![elem(e)]),
        A::BootstrapMethods(ref v) => t(
            "BootstrapMethods",
            vec![list(v, |b| V::L(vec![n(b.method_ref), u16s(&b.arguments)]))],
        ),
        A::Code { max_stack, max_locals, ref instructions, ref exceptions, ref attributes } => {
            let mut ins: Vec<_> = instructions.iter().collect();
            ins.sort_by_key(|x| *x.0);
            t(
                "Code",
                vec![
                    n(max_stack),
                    n(max_locals),
                    V::L(ins.into_iter().map(|(at, i)| V::L(vec![n(*at), instr(i)])).collect()),
                    list(exceptions, |e| {
                        V::L(vec![n(e.start), n(e.end), n(e.handler), n(e.catch_type)])
                    }),
                    attrs(attributes),
                ],
            )
        }
        A::ConstantValue(x) => t("ConstantValue", vec![n(x)]),
        A::Deprecated => t("Deprecated", vec![]),
        A::EnclosingMethod { class_index, method_index } => {
            t("EnclosingMethod", vec![n(class_index), n(method_index)])
        }
        A::Exceptions(ref v) => t("Exceptions", vec![u16s(v)]),
        A::InnerClasses(ref v) => t(
            "InnerClasses",
            vec![list(v, |i| {
                V::L(vec![
                    n(i.inner_class_info),
                    n(i.outer_class_info),
                    n(i.inner_name),
                    n(i.inner_class_access_flags.bits()),
                ])
            })],
        ),
        A::LineNumberTable(ref v) => t(
            "LineNumberTable",
            vec![list(v, |l| V::L(vec![n(l.start), n(l.line_number)]))],
        ),
        A::LocalVariableTable(ref v) => t(
            "LocalVariableTable",
            vec![list(v, |l| {
                V::L(vec![n(l.start), n(l.length), n(l.name), n(l.descriptor), n(l.index)])
            })],
        ),
        A::LocalVariableTypeTable(ref v) => t(
            "LocalVariableTypeTable",
            vec![list(v, |l| {
                V::L(vec![n(l.start), n(l.length), n(l.name), n(l.signature), n(l.index)])
            })],
        ),
        A::MethodParameters(ref v) => t(
            "MethodParameters",
            vec![list(v, |p| V::L(vec![n(p.name), n(p.access_flags.bits())]))],
        ),
        A::Module { name, flags, version, ref requires, ref exports, ref opens, ref uses, ref provides } => t(
            "Module",
            vec![
                n(name),
                n(flags.bits()),
                n(version),
                list(requires, |r| V::L(vec![n(r.index), n(r.flags.bits()), n(r.version)])),
                list(exports, |e| V::L(vec![n(e.index), n(e.flags.bits()), u16s(&e.to)])),
                list(opens, |e| V::L(vec![n(e.index), n(e.flags.bits()), u16s(&e.to)])),
                u16s(uses),
                list(provides, |p| V::L(vec![n(p.index), u16s(&p.with)])),
            ],
        ),
        A::ModuleMainClass(x) => t("ModuleMainClass", vec![n(x)]),
        A::ModulePackages(ref v) => t("ModulePackages", vec![u16s(v)]),
        A::RuntimeVisibleAnnotations(ref v) => t("RuntimeVisibleAnnotations", vec![list(v, anno)]),
        A::RuntimeInvisibleAnnotations(ref v) => t("RuntimeInvisibleAnnotations", vec![list(v, anno)]),
        A::RuntimeVisibleParameterAnnotations(ref v) => t(
            "RuntimeVisibleParameterAnnotations",
            vec![list(v, |p| list(p, anno))],
        ),
        A::RuntimeInvisibleParameterAnnotations(ref v) => t(
            "RuntimeInvisibleParameterAnnotations",
            vec![list(v, |p| list(p, anno))],
        ),
        A::RuntimeVisibleTypeAnnotations(ref v) => {
            t("RuntimeVisibleTypeAnnotations", vec![list(v, type_anno)])
        }
        A::RuntimeInvisibleTypeAnnotations(ref v) => {
            t("RuntimeInvisibleTypeAnnotations", vec![list(v, type_anno)])
        }
        A::Signature(x) => t("Signature", vec![n(x)]),
        A::Synthetic => t("Synthetic", vec![]),
        A::SourceFile(x) => t("SourceFile", vec![n(x)]),
        A::SourceDebugExtension(ref s) => t("SourceDebugExtension", vec![V::S(s.clone())]),
        A::StackMapTable(ref v) => t("StackMapTable", vec![list(v, frame)]),
        A::Unknown(i, ref b) => t("Unknown", vec![n(i), V::B(b.clone())]),
        _ => t("OtherAttribute", vec![V::S(format!("{:?}", a))]),
    }
}

fn anno(a: &Annotation) -> V {
    t(
        "Anno",
        vec![
            n(a.type_index),
            list(&a.element_value_pairs, |p| V::L(vec![n(p.0), elem(&p.1)])),
        ],
    )
}

fn elem(e: &ElementValue) -> V {
    use ElementValue as E;
    match *e {
        E::Byte(x) => t("Byte", vec![n(x)]),
        E::Short(x) => t("Short", vec![n(x)]),
        E::Char(x) => t("Char", vec![n(x)]),
        E::Int(x) => t("Int", vec![n(x)]),
        E::Long(x) => t("Long", vec![n(x)]),
        E::Float(x) => t("Float", vec![n(x)]),
        E::Double(x) => t("Double", vec![n(x)]),
        E::Boolean(x) => t("Boolean", vec![n(x)]),
        E::String(x) => t("String", vec![n(x)]),
        E::Class(x) => t("Class", vec![n(x)]),
        E::Enum { type_name, const_name } => t("Enum", vec![n(type_name), n(const_name)]),
        E::Annotation(ref a) => t("Annotation", vec![anno(a)]),
        E::Array(ref v) => t("Array", vec![list(v, elem)]),
        _ => t("OtherElem", vec![V::S(format!("{:?}", e))]),
    }
}

fn lvt(v: &[LocalVariableTarget]) -> V {
    list(v, |x| V::L(vec![n(x.start), n(x.length), n(x.index)]))
}

fn type_anno(a: &TypeAnnotation) -> V {
    use TargetType as T;
    let target = match a.target_type {
        T::TypeParameterClass(x) => t("TypeParameterClass", vec![n(x)]),
        T::TypeParameterMethod(x) => t("TypeParameterMethod", vec![n(x)]),
        T::SuperType(x) => t("SuperType", vec![n(x)]),
        T::TypeParameterBoundClass { type_parameter, bound_index } => {
            t("TypeParameterBoundClass", vec![n(type_parameter), n(bound_index)])
        }
        T::TypeParameterBoundMethod { type_parameter, bound_index } => {
            t("TypeParameterBoundMethod", vec![n(type_parameter), n(bound_index)])
        }
        T::EmptyField => t("Field", vec![]),
        T::EmptyReturn => t("Return", vec![]),
        T::EmptyReceiver => t("Receiver", vec![]),
        T::FormalParameter(x) => t("FormalParameter", vec![n(x)]),
        T::Throws(x) => t("Throws", vec![n(x)]),
        T::LocalVariable(ref v) => t("LocalVariable", vec![lvt(v)]),
        T::ResourceVariable(ref v) => t("ResourceVariable", vec![lvt(v)]),
        T::Catch(x) => t("Catch", vec![n(x)]),
        T::OffsetInstanceOf(x) => t("InstanceOf", vec![n(x)]),
        T::OffsetNew(x) => t("New", vec![n(x)]),
        T::OffsetNewRef(x) => t("ConstructorReference", vec![n(x)]),
        T::OffsetRef(x) => t("MethodReference", vec![n(x)]),
        T::TypeArgumentCast { offset, type_argument } => t("Cast", vec![n(offset), n(type_argument)]),
        T::TypeArgumentConstructor { offset, type_argument } => {
            t("ConstructorArgument", vec![n(offset), n(type_argument)])
        }
        T::TypeArgumentMethod { offset, type_argument } => {
            t("MethodArgument", vec![n(offset), n(type_argument)])
        }
        T::TypeArgumentNewRef { offset, type_argument } => {
            t("ConstructorReferenceArgument", vec![n(offset), n(type_argument)])
        }
        T::TypeArgumentRef { offset, type_argument } => {
            t("MethodReferenceArgument", vec![n(offset), n(type_argument)])
        }
        _ => t("OtherTarget", vec![]),
    };
    let path = list(&a.target_path, |p| {
        V::L(vec![
            t(
                match p.path_kind {
                    TypePathKind::ArrayType => "Array",
                    TypePathKind::NestedType => "Nested",
                    TypePathKind::WildcardType => "Wildcard",
                    TypePathKind::Type => "TypeArgument",
                    _ => "?",
                },
                vec![],
            ),
            n(p.argument_index),
        ])
    });
    t("TypeAnno", vec![target, path, anno(&a.annotation)])
}

fn verif(v: &VerificationType) -> V {
    use VerificationType as T;
    match *v {
        T::Top => t("Top", vec![]),
        T::Integer => t("Integer", vec![]),
        T::Float => t("Float", vec![]),
        T::Double => t("Double", vec![]),
        T::Long => t("Long", vec![]),
        T::Null => t("Null", vec![]),
        T::UninitializedThis => t("UninitializedThis", vec![]),
        T::Object(x) => t("Object", vec![n(x)]),
        T::Uninitialized(x) => t("Uninitialized", vec![n(x)]),
        _ => t("OtherVerif", vec![]),
    }
}

fn frame(f: &StackMapFrame) -> V {
    use StackMapFrame as S;
    match *f {
        S::Same { offset_delta } => t("Same", vec![n(offset_delta)]),
        S::Same1 { offset_delta, ref stack } => t("Same1", vec![n(offset_delta), verif(stack)]),
        S::Chop { offset_delta, count } => t("Chop", vec![n(offset_delta), n(count)]),
        S::Append { offset_delta, ref locals } => t("Append", vec![n(offset_delta), list(locals, verif)]),
        S::Full { offset_delta, ref locals, ref stack } => {
            t("Full", vec![n(offset_delta), list(locals, verif), list(stack, verif)])
        }
        _ => t("OtherFrame", vec![]),
    }
}

pub fn instr(i: &Instruction) -> V {
    use Instruction as I;
    match *i {
        I::TableSwitch { default, low, high, ref offsets } => t(
            "tableswitch",
            vec![n(default), n(low), n(high), V::L(offsets.iter().map(|&x| n(x)).collect())],
        ),
        I::LookupSwitch { default, ref offsets } => t(
            "lookupswitch",
            vec![
                n(default),
                V::L(offsets.iter().map(|(&k, &o)| V::L(vec![n(k), n(o)])).collect()),
            ],
        ),
        I::NewArray(ref a) => t(
            "newarray",
            vec![t(
                match *a {
                    ArrayType::Boolean => "boolean",
                    ArrayType::Char => "char",
                    ArrayType::Float => "float",
                    ArrayType::Double => "double",
                    ArrayType::Byte => "byte",
                    ArrayType::Short => "short",
                    ArrayType::Int => "int",
                    ArrayType::Long => "long",
                    _ => "?",
                },
                vec![],
            )],
        ),
        I::NOP => t("nop", vec![]),
        I::AConstNull => t("aconst_null", vec![]),
        I::IConstM1 => t("iconst_m1", vec![]),
        I::IConst0 => t("iconst_0", vec![]),
        I::IConst1 => t("iconst_1", vec![]),
        I::IConst2 => t("iconst_2", vec![]),
        I::IConst3 => t("iconst_3", vec![]),
        I::IConst4 => t("iconst_4", vec![]),
        I::IConst5 => t("iconst_5", vec![]),
        I::LConst0 => t("lconst_0", vec![]),
        I::LConst1 => t("lconst_1", vec![]),
        I::FConst0 => t("fconst_0", vec![]),
        I::FConst1 => t("fconst_1", vec![]),
        I::FConst2 => t("fconst_2", vec![]),
        I::DConst0 => t("dconst_0", vec![]),
        I::DConst1 => t("dconst_1", vec![]),
        I::BIPush(a) => t("bipush", vec![n(a)]),
        I::SIPush(a) => t("sipush", vec![n(a)]),
        I::LDC(a) => t("ldc", vec![n(a)]),
        I::ILoad(a) => t("iload", vec![n(a)]),
        I::LLoad(a) => t("lload", vec![n(a)]),
        I::FLoad(a) => t("fload", vec![n(a)]),
        I::DLoad(a) => t("dload", vec![n(a)]),
        I::ALoad(a) => t("aload", vec![n(a)]),
        I::ILoad0 => t("iload_0", vec![]),
        I::ILoad1 => t("iload_1", vec![]),
        I::ILoad2 => t("iload_2", vec![]),
        I::ILoad3 => t("iload_3", vec![]),
        I::LLoad0 => t("lload_0", vec![]),
        I::LLoad1 => t("lload_1", vec![]),
        I::LLoad2 => t("lload_2", vec![]),
        I::LLoad3 => t("lload_3", vec![]),
        I::FLoad0 => t("fload_0", vec![]),
        I::FLoad1 => t("fload_1", vec![]),
        I::FLoad2 => t("fload_2", vec![]),
        I::FLoad3 => t("fload_3", vec![]),
        I::DLoad0 => t("dload_0", vec![]),
        I::DLoad1 => t("dload_1", vec![]),
        I::DLoad2 => t("dload_2", vec![]),
        I::DLoad3 => t("dload_3", vec![]),
        I::ALoad0 => t("aload_0", vec![]),
        I::ALoad1 => t("aload_1", vec![]),
        I::ALoad2 => t("aload_2", vec![]),
        I::ALoad3 => t("aload_3", vec![]),
        I::IALoad => t("iaload", vec![]),
        I::LALoad => t("laload", vec![]),
        I::FALoad => t("faload", vec![]),
        I::DALoad => t("daload", vec![]),
        I::AALoad => t("aaload", vec![]),
        I::BALoad => t("baload", vec![]),
        I::CALoad => t("caload", vec![]),
        I::SALoad => t("saload", vec![]),
        I::IStore(a) => t("istore", vec![n(a)]),
        I::LStore(a) => t("lstore", vec![n(a)]),
        I::FStore(a) => t("fstore", vec![n(a)]),
        I::DStore(a) => t("dstore", vec![n(a)]),
        I::AStore(a) => t("astore", vec![n(a)]),
        I::IStore0 => t("istore_0", vec![]),
        I::IStore1 => t("istore_1", vec![]),
        I::IStore2 => t("istore_2", vec![]),
        I::IStore3 => t("istore_3", vec![]),
        I::LStore0 => t("lstore_0", vec![]),
        I::LStore1 => t("lstore_1", vec![]),
        I::LStore2 => t("lstore_2", vec![]),
        I::LStore3 => t("lstore_3", vec![]),
        I::FStore0 => t("fstore_0", vec![]),
        I::FStore1 => t("fstore_1", vec![]),
        I::FStore2 => t("fstore_2", vec![]),
        I::FStore3 => t("fstore_3", vec![]),
        I::DStore0 => t("dstore_0", vec![]),
        I::DStore1 => t("dstore_1", vec![]),
        I::DStore2 => t("dstore_2", vec![]),
        I::DStore3 => t("dstore_3", vec![]),
        I::AStore0 => t("astore_0", vec![]),
        I::AStore1 => t("astore_1", vec![]),
        I::AStore2 => t("astore_2", vec![]),
        I::AStore3 => t("astore_3", vec![]),
        I::IAStore => t("iastore", vec![]),
        I::LAStore => t("lastore", vec![]),
        I::FAStore => t("fastore", vec![]),
        I::DAStore => t("dastore", vec![]),
        I::AAStore => t("aastore", vec![]),
        I::BAStore => t("bastore", vec![]),
        I::CAStore => t("castore", vec![]),
        I::SAStore => t("sastore", vec![]),
        I::Pop => t("pop", vec![]),
        I::Pop2 => t("pop2", vec![]),
        I::Dup => t("dup", vec![]),
        I::DupX1 => t("dup_x1", vec![]),
        I::DupX2 => t("dup_x2", vec![]),
        I::Dup2 => t("dup2", vec![]),
        I::Dup2X1 => t("dup2_x1", vec![]),
        I::Dup2X2 => t("dup2_x2", vec![]),
        I::Swap => t("swap", vec![]),
        I::IAdd => t("iadd", vec![]),
        I::LAdd => t("ladd", vec![]),
        I::FAdd => t("fadd", vec![]),
        I::DAdd => t("dadd", vec![]),
        I::ISub => t("isub", vec![]),
        I::LSub => t("lsub", vec![]),
        I::FSub => t("fsub", vec![]),
        I::DSub => t("dsub", vec![]),
        I::IMul => t("imul", vec![]),
        I::LMul => t("lmul", vec![]),
        I::FMul => t("fmul", vec![]),
        I::DMul => t("dmul", vec![]),
        I::IDiv => t("idiv", vec![]),
        I::LDiv => t("ldiv", vec![]),
        I::FDiv => t("fdiv", vec![]),
        I::DDiv => t("ddiv", vec![]),
        I::IRem => t("irem", vec![]),
        I::LRem => t("lrem", vec![]),
        I::FRem => t("frem", vec![]),
        I::DRem => t("drem", vec![]),
        I::INeg => t("ineg", vec![]),
        I::LNeg => t("lneg", vec![]),
        I::FNeg => t("fneg", vec![]),
        I::DNeg => t("dneg", vec![]),
        I::IShL => t("ishl", vec![]),
        I::LShL => t("lshl", vec![]),
        I::IShR => t("ishr", vec![]),
        I::LShR => t("lshr", vec![]),
        I::IUShR => t("iushr", vec![]),
        I::LUShR => t("lushr", vec![]),
        I::IAnd => t("iand", vec![]),
        I::LAnd => t("land", vec![]),
        I::IOr => t("ior", vec![]),
        I::LOr => t("lor", vec![]),
        I::IXOr => t("ixor", vec![]),
        I::LXOr => t("lxor", vec![]),
        I::IInc(a, b) => t("iinc", vec![n(a), n(b)]),
        I::I2L => t("i2l", vec![]),
        I::I2F => t("i2f", vec![]),
        I::I2D => t("i2d", vec![]),
        I::L2I => t("l2i", vec![]),
        I::L2F => t("l2f", vec![]),
        I::L2D => t("l2d", vec![]),
        I::F2I => t("f2i", vec![]),
        I::F2L => t("f2l", vec![]),
        I::F2D => t("f2d", vec![]),
        I::D2I => t("d2i", vec![]),
        I::D2L => t("d2l", vec![]),
        I::D2F => t("d2f", vec![]),
        I::I2B => t("i2b", vec![]),
        I::I2C => t("i2c", vec![]),
        I::I2S => t("i2s", vec![]),
        I::LCmp => t("lcmp", vec![]),
        I::FCmpL => t("fcmpl", vec![]),
        I::FCmpG => t("fcmpg", vec![]),
        I::DCmpL => t("dcmpl", vec![]),
        I::DCmpG => t("dcmpg", vec![]),
        I::IfEq(a) => t("ifeq", vec![n(a)]),
        I::IfNE(a) => t("ifne", vec![n(a)]),
        I::IfLT(a) => t("iflt", vec![n(a)]),
        I::IfGE(a) => t("ifge", vec![n(a)]),
        I::IfGT(a) => t("ifgt", vec![n(a)]),
        I::IfLE(a) => t("ifle", vec![n(a)]),
        I::IfICmpEq(a) => t("if_icmpeq", vec![n(a)]),
        I::IfICmpNE(a) => t("if_icmpne", vec![n(a)]),
        I::IfICmpLT(a) => t("if_icmplt", vec![n(a)]),
        I::IfICmpGE(a) => t("if_icmpge", vec![n(a)]),
        I::IfICmpGT(a) => t("if_icmpgt", vec![n(a)]),
        I::IfICmpLE(a) => t("if_icmple", vec![n(a)]),
        I::IfACmpEq(a) => t("if_acmpeq", vec![n(a)]),
        I::IfACmpNE(a) => t("if_acmpne", vec![n(a)]),
        I::GoTo(a) => t("goto", vec![n(a)]),
        I::JSR(a) => t("jsr", vec![n(a)]),
        I::Ret(a) => t("ret", vec![n(a)]),
        I::IReturn => t("ireturn", vec![]),
        I::LReturn => t("lreturn", vec![]),
        I::FReturn => t("freturn", vec![]),
        I::DReturn => t("dreturn", vec![]),
        I::AReturn => t("areturn", vec![]),
        I::Return => t("return", vec![]),
        I::GetStatic(a) => t("getstatic", vec![n(a)]),
        I::PutStatic(a) => t("putstatic", vec![n(a)]),
        I::GetField(a) => t("getfield", vec![n(a)]),
        I::PutField(a) => t("putfield", vec![n(a)]),
        I::InvokeVirtual(a) => t("invokevirtual", vec![n(a)]),
        I::InvokeSpecial(a) => t("invokespecial", vec![n(a)]),
        I::InvokeStatic(a) => t("invokestatic", vec![n(a)]),
        I::InvokeInterface(a, b) => t("invokeinterface", vec![n(a), n(b)]),
        I::InvokeDynamic(a) => t("invokedynamic", vec![n(a)]),
        I::New(a) => t("new", vec![n(a)]),
        I::ANewArray(a) => t("anewarray", vec![n(a)]),
        I::ArrayLength => t("arraylength", vec![]),
        I::AThrow => t("athrow", vec![]),
        I::CheckCast(a) => t("checkcast", vec![n(a)]),
        I::InstanceOf(a) => t("instanceof", vec![n(a)]),
        I::MonitorEnter => t("monitorenter", vec![]),
        I::MonitorExit => t("monitorexit", vec![]),
        I::MultiANewArray(a, b) => t("multianewarray", vec![n(a), n(b)]),
        I::IfNull(a) => t("ifnull", vec![n(a)]),
        I::IfNonNull(a) => t("ifnonnull", vec![n(a)]),
        I::BreakPoint => t("breakpoint", vec![]),
        I::ImpDep1 => t("impdep1", vec![]),
        I::ImpDep2 => t("impdep2", vec![]),
        _ => t("other_instruction", vec![V::S(format!("{:?}", i))]),
    }
}

/// The kind of an error and its operands.
pub fn error(e: &Error) -> V {
    match *e {
        Error::IO(_) => t("IO", vec![]),
        Error::InvalidUTF8 => t("InvalidUTF8", vec![]),
        Error::LimitExceeded => t("LimitExceeded", vec![]),
        Error::NotAClass => t("NotAClass", vec![]),
        Error::InvalidCPItem(i) => t("InvalidCPItem", vec![n(i)]),
        Error::CPTooLarge => t("CPTooLarge", vec![]),
        Error::InvalidDescriptor { ref desc, at } => {
            t("InvalidDescriptor", vec![V::S(desc.clone()), V::N(at as i64)])
        }
        Error::InvalidInstruction { op_code, at } => t("InvalidInstruction", vec![n(op_code), n(at)]),
        Error::ReservedStackMapFrame(x) => t("ReservedStackMapFrame", vec![n(x)]),
        Error::InvalidVerificationType(x) => t("InvalidVerificationType", vec![n(x)]),
        Error::InvalidElementValue(x) => t("InvalidElementValue", vec![n(x)]),
        Error::InvalidTargetType => t("InvalidTargetType", vec![]),
        Error::InvalidTypePath => t("InvalidTypePath", vec![]),
        _ => t("OtherError", vec![V::S(format!("{:?}", e))]),
    }
}

pub fn type_desc(d: &TypeDescriptor) -> V {
    let base = match d.base_type {
        Type::Boolean => t("Z", vec![]),
        Type::Byte => t("B", vec![]),
        Type::Short => t("S", vec![]),
        Type::Int => t("I", vec![]),
        Type::Long => t("J", vec![]),
        Type::Float => t("F", vec![]),
        Type::Double => t("D", vec![]),
        Type::Char => t("C", vec![]),
        Type::Reference(ref s) => t("L", vec![V::S(s.clone())]),
        _ => t("?", vec![]),
    };
    t("Type", vec![n(d.dimensions), base])
}

pub fn method_desc(d: &MethodDescriptor) -> V {
    t(
        "MethodType",
        vec![
            list(&d.params, type_desc),
            match d.return_type {
                Some(ref r) => type_desc(r),
                None => t("V", vec![]),
            },
        ],
    )
}

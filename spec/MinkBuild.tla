----------------------------- MODULE MinkBuild ------------------------------
(* Building what the generators write.  A build is a run of steps: for every *)
(* file of the set and every output of a target the compiler writes the      *)
(* file, the tool translates every unit a user of these files would write,   *)
(* and for C and C++ the objects are linked.  Property: no step fails and no *)
(* tool says anything.                                                       *)
(*                                                                          *)
(* The second half describes the names the generators introduce, target by   *)
(* target, and when two of them meet in one scope (Clash).  It is used to    *)
(* choose names that have to build whatever they look like, and to name the  *)
(* circumstance under which a build is known not to work; it never excuses a *)
(* failed step on its own.                                                   *)
EXTENDS MinkWire

Targets == {"c", "cpp", "rust", "java"}
NamesOf(p) == {p.files[i].name : i \in Reach(p)}
Decls(p, k) == {d \in Rng(VisDecls(p)) : d.k = k}
DeclNames(p, k) == {d.n : d \in Decls(p, k)}

\* the units a user of a target writes
Units(p, t) ==
  IF t \in {"c", "cpp"}
  THEN {f \o u : f \in NamesOf(p), u \in {"/stub", "/skel"}} \cup {"all/both"}
  ELSE IF t = "rust" THEN {"crate"} ELSE {"classes"}

\* a build is right when every unit was translated in silence, and so was the link
Linked(t) == t \in {"c", "cpp"}
Wanted(p, t) == Units(p, t) \cup (IF Linked(t) THEN {"link"} ELSE {})

\* constructs a target documents it does not support
Unsupported(env, t) == t = "java" /\ \E s \in DOMAIN env.structs : NObj(env, s) > 0

-----------------------------------------------------------------------------
(* Letters                                                                   *)
Lows == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Caps == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowSet == Rng(Lows)
CapSet == Rng(Caps)
UpOf == TLCEval([c \in LowSet |-> Caps[CHOOSE i \in 1..26 : Lows[i] = c]])
LowOf == TLCEval([c \in CapSet |-> Lows[CHOOSE i \in 1..26 : Caps[i] = c]])
RECURSIVE MapStr(_,_,_)
MapStr(s, f, i) == IF i > Len(s) THEN "" ELSE (LET c == SubSeq(s, i, i) IN IF c \in DOMAIN f THEN f[c] ELSE c) \o MapStr(s, f, i + 1)
Up(s) == MapStr(s, UpOf, 1)
Low(s) == MapStr(s, LowOf, 1)

-----------------------------------------------------------------------------
(* Names                                                                     *)
Mem(env, i, kind) == {x.m.n : x \in Rng(Flat(env, i, kind))}
OwnMem(env, i, kind) == {x.m.n : x \in Rng(MembersOf(env, i, kind))}
ParamsOf(env, i) == UNION {{q.n : q \in Rng(x.m.p)} : x \in Rng(Methods(env, i))}
Values(env, i) == Mem(env, i, "const") \cup Mem(env, i, "error")

IntTypes == {"uint8_t","uint16_t","uint32_t","uint64_t","int8_t","int16_t","int32_t","int64_t"}
CValues == {"NULL","Object_NULL","Object_OK","Object_ERROR_INVALID","Object_OP_release","Object_OP_retain","linux","unix","i386",
            "true","false","EOF","INT_MAX","UINT8_MAX","stdin","stdout","stderr","errno"}
CTypes == {"Object","ObjectArg","ObjectBuf","ObjectBufIn","ObjectCounts","ObjectCxt","ObjectOp","ObjectInvoke","size_t"} \cup IntTypes
CFuncs == {"ObjectCounts_pack","ObjectOp_methodID","Object_invoke","UINT8_C","UINT16_C","UINT32_C","UINT64_C","INT8_C","INT16_C","INT32_C","INT64_C"}
CRuntime == CValues \cup CTypes \cup CFuncs
CMembers == {"b","bi","o","ptr","size","weak","invoke","context"}
LocalSuffixes == {"_val","_ptr","_len","_lenout","_obj","_ref","_out","_buf"}
Derived(env, i) == {x \o s : x \in ParamsOf(env, i), s \in LocalSuffixes} \cup {"self"}
Bundled(env) == UNION {{"m_" \o x : x \in ParamsOf(env, i)} : i \in DOMAIN env.ifaces}

CMacros(p, env) ==
  DeclNames(p, "const")
  \cup UNION {{i \o "_" \o v : v \in Values(env, i)} \cup {i \o "_OP_" \o m : m \in OwnMem(env, i, "method")} \cup {i \o "_DEFINE_INVOKE"} : i \in DOMAIN env.ifaces}
CFunctions(env) == UNION {{i \o "_" \o m : m \in Mem(env, i, "method") \cup {"retain", "release"}} : i \in DOMAIN env.ifaces}
CTypeNames(env) == DOMAIN env.structs \cup DOMAIN env.ifaces
FieldNames(env) == UNION {{f.n : f \in Rng(env.structs[s].fields)} : s \in DOMAIN env.structs}
AllDerived(env) == UNION {Derived(env, i) : i \in DOMAIN env.ifaces}
\* a name emitted for two different things
CTwice(p, env) ==
  \/ \E i, j \in DOMAIN env.ifaces : \E a \in Values(env, i) \cup Mem(env, i, "method") \cup {"retain", "release"} :
       \E b \in Values(env, j) \cup Mem(env, j, "method") \cup {"retain", "release"} : i # j /\ i \o "_" \o a = j \o "_" \o b
  \/ \E i \in DOMAIN env.ifaces : Mem(env, i, "method") \cap {"retain", "release"} # {}
  \/ \E i, j \in DOMAIN env.ifaces : \E a \in OwnMem(env, i, "method") : \E b \in Values(env, j) \cup Mem(env, j, "method") : i \o "_OP_" \o a = j \o "_" \o b
  \/ CFunctions(env) \cap CTypeNames(env) # {}

Headers == {"object", "stdint", "stddef", "string", "stdlib", "stdio", "limits", "inttypes", "errno", "features", "assert"}
ClashC(p, env) == UNION {
  IF NamesOf(p) \cap Headers # {} THEN {"a header of the runtime"} ELSE {},
  IF DeclNames(p, "const") \cap (FieldNames(env) \cup AllDerived(env) \cup Bundled(env) \cup CMembers) # {} THEN {"a constant is a macro"} ELSE {},
  IF (CMacros(p, env) \ DeclNames(p, "const")) \cap (FieldNames(env) \cup AllDerived(env) \cup Bundled(env) \cup CMembers) # {} THEN {"a member constant is a macro"} ELSE {},
  IF CMacros(p, env) \cap CTypeNames(env) # {} \/ Cardinality(CMacros(p, env) \cap CFunctions(env)) > 0 THEN {"a member constant and a method"} ELSE {},
  IF CTwice(p, env) THEN {"one name from two"} ELSE {},
  IF (CMacros(p, env) \cup CFunctions(env) \cup CTypeNames(env)) \cap CRuntime # {} \/ FieldNames(env) \cap CValues # {} THEN {"runtime names"} ELSE {},
  IF CTypeNames(env) \cap AllDerived(env) # {} THEN {"a type and a local"} ELSE {} }

XTypes == CTypes \cup {"ProxyBase", "ImplBase"}
XBase == {"get", "extract", "consume", "isNull", "invoke", "retain", "release", "assign"}
ClashCpp(p, env) ==
  LET ifs == DOMAIN env.ifaces sts == DOMAIN env.structs
      types == ifs \cup sts \cup {"I" \o i : i \in ifs} \cup {i \o "ImplBase" : i \in ifs}
      ms(i) == Mem(env, i, "method") vs(i) == Values(env, i) IN UNION {
  IF NamesOf(p) \cap {"proxy_base", "impl_base"} # {} THEN {"a header of the runtime"} ELSE {},
  IF \E i \in ifs : ms(i) \cap vs(i) # {} THEN {"a member constant and a method"} ELSE {},
  IF \E i \in ifs : (ms(i) \cup vs(i)) \cap types # {} THEN {"a member and a type"} ELSE {},
  IF \E i \in ifs : ms(i) \cap {"invoke", "retain", "release"} # {} THEN {"a method of the base classes"} ELSE {},
  IF \E i \in ifs : ms(i) \cap Derived(env, i) # {} THEN {"a method and a local"} ELSE {},
  IF \E i \in ifs : vs(i) \cap {"OP_" \o m : m \in ms(i)} # {} \/ ms(i) \cap {"OP_" \o m : m \in ms(i)} # {}
       \/ types \cap {"OP_" \o m : m \in ms(i)} # {} THEN {"a member and an op-code"} ELSE {},
  IF \E i \in ifs : "I" \o i \in DeclNames(p, "iface") \cup DeclNames(p, "struct") \cup DeclNames(p, "const")
       \/ (i \o "ImplBase") \in DeclNames(p, "iface") \cup DeclNames(p, "struct") \cup DeclNames(p, "const") THEN {"a class of an interface"} ELSE {},
  IF (sts \cup ifs) \cap XBase # {} THEN {"a type and a method of the base classes"} ELSE {},
  IF (sts \cup ifs \cup DeclNames(p, "const")) \cap {"std", "main"} # {} THEN {"std"} ELSE {},
  IF sts \cap (AllDerived(env) \cup Bundled(env)) # {} \/ ifs \cap AllDerived(env) # {} THEN {"a type and a local"} ELSE {},
  IF \E s \in sts : LET fs == env.structs[s].fields IN \E j, k \in DOMAIN fs : fs[k].n = fs[j].t THEN {"a field and a type"} ELSE {},
  IF FieldNames(env) \cap (CValues \cup IntTypes) # {} \/ (sts \cup ifs \cup DeclNames(p, "const")) \cap (CRuntime \cup XTypes) # {}
     \/ \E i \in ifs : (ms(i) \cup vs(i)) \cap (CRuntime \cup XTypes) # {} THEN {"runtime names"} ELSE {} }

\* Rust: modules are files, upper case constants, patterns of local bindings
RustWords == {"as","break","const","continue","crate","else","enum","extern","false","fn","for","if","impl","in","let","loop","match","mod","move",
  "mut","pub","ref","return","self","static","struct","super","trait","true","type","unsafe","use","where","while","async","await","dyn","abstract",
  "become","box","do","final","macro","override","priv","typeof","unsized","virtual","yield","try","gen"}
RustTypes == {"u8","u16","u32","u64","i8","i16","i32","i64","f32","f64","usize","isize","str","bool","char"}
RustPrelude == {"AsRef","Box","Err","Error","FnMut","Fn","FnOnce","From","Into","None","Some","Ok","Option","Result","Send","Sync","T","MARKER","Self","Drop","Clone","Copy","Debug",
  "Eq","PartialEq","Target","Deref","Vec","String","ToString","Default","Iterator","Sized","Unpin","std","core","alloc"}
RustLocals == {"a","cx","e","err","f","concrete","downcast_concrete","invoke","value","obj","o","op","counts","wrapper"}
ClashRust(p, env) ==
  LET ifs == DOMAIN env.ifaces
      files == {i \in Reach(p) : \E d \in Rng(p.files[i].decls) : d.k # "iface"}
      fileOf(n) == CHOOSE i \in Reach(p) : \E d \in Rng(p.files[i].decls) : d.k = "iface" /\ d.n = n
      chain(i) == Rng(Chain(env, i))
      caps(i) == [k \in Rng(Consts(env, i)) \cup Rng(Errors(env, i)) |-> Up(k.m.n)]
      own(i) == {x \in DOMAIN caps(i) : x.o = i} IN UNION {
  IF \/ \E f, g \in files : f # g /\ Low(p.files[f].name) = Low(p.files[g].name)
     \/ \E f \in files, i \in ifs : fileOf(i) # f /\ Low(p.files[f].name) = Low(i)
     \/ \E i, j \in ifs : i # j /\ Low(i) = Low(j) THEN {"modules"} ELSE {},
  IF (\E i \in ifs : Low(i) \in RustWords) \/ (\E f \in files : Low(p.files[f].name) \in RustWords) THEN {"a module is a reserved word"} ELSE {},
  IF \/ \E i \in ifs : \E a, b \in own(i) : a # b /\ caps(i)[a] = caps(i)[b]
     \/ \E f \in files : \E a, b \in Rng(p.files[f].decls) : a.k = "const" /\ b.k = "const" /\ a.n # b.n /\ Up(a.n) = Up(b.n) THEN {"constants in capitals"} ELSE {},
  IF \E i \in ifs : \E a \in own(i) : caps(i)[a] \in {i, "MARKER"} THEN {"a constant and the interface"} ELSE {},
  IF \E i \in ifs : ParamsOf(env, i) \cap (chain(i) \cup Rng(caps(i)) \cup {"Ok","Err","Some","None","Error","MARKER"}) # {} THEN {"a parameter is a pattern"} ELSE {},
  IF \E i \in ifs : "I" \o i \in ifs THEN {"a trait of an interface"} ELSE {},
  IF ifs \cap (RustPrelude \cup RustLocals \cup RustTypes) # {} THEN {"an interface of the prelude"} ELSE {},
  IF DOMAIN env.structs \cap RustTypes # {} THEN {"a struct of the prelude"} ELSE {},
  {} }

JavaNames == {"ByteBuffer","ByteOrder","IMinkObject","JMinkObject","MinkProxy","Math","minkObject","MinkObject","Proxy","InvokeException","Override",
  "Error","Object","String","Integer","Byte","Short","Long","Void","System","Thread","com","java"}
\* same signature as a method of java.lang.Object
ObjectMethod(m) ==
  \/ m.n \in {"wait","notify","notifyAll","getClass","hashCode","toString","clone","finalize"} /\ m.p = <<>>
  \/ m.n = "wait" /\ Len(m.p) \in {1, 2} /\ \A i \in DOMAIN m.p : m.p[i].d = "in" /\ m.p[i].t \in (<<{"uint64", "int64"}, {"uint32", "int32"}>>)[i] /\ m.p[i].a = -1
JavaBase == {"retain","release","invoke","isNull","close"}
ClashJava(p, env) ==
  LET ifs == DOMAIN env.ifaces
      cap(i) == Rng(Consts(env, i)) \cup Rng(Errors(env, i))
      structsOf(f) == {d.n : d \in {x \in Rng(p.files[f].decls) : x.k = "struct"}} IN UNION {
  IF \E f \in Reach(p) : p.files[f].name \in ifs THEN {"a file and an interface"} ELSE {},
  IF \E f \in Reach(p) : p.files[f].name \in structsOf(f) THEN {"a file and its struct"} ELSE {},
  IF \E i \in ifs : DOMAIN env.structs \cap ifs # {} THEN {"a struct and an interface"} ELSE {},
  IF \E i \in ifs : \E a, b \in cap(i) : a # b /\ Up(a.m.n) = Up(b.m.n) THEN {"constants in capitals"} ELSE {},
  IF \E i \in ifs : \E x \in Rng(Methods(env, i)) : ObjectMethod(x.m) THEN {"a method every object has"} ELSE {},
  IF \E i \in ifs : \E x \in Rng(Methods(env, i)) : x.m.n \in JavaBase /\ x.m.p = <<>> THEN {"a method of the base classes"} ELSE {},
  IF (DeclNames(p, "const") \cup DeclNames(p, "struct") \cup ifs \cup NamesOf(p)) \cap JavaNames # {} THEN {"runtime names"} ELSE {} }

Clash(t, p, env) ==
  CASE t = "c" -> ClashC(p, env) [] t = "cpp" -> ClashCpp(p, env) [] t = "rust" -> ClashRust(p, env) [] t = "java" -> ClashJava(p, env)
=============================================================================

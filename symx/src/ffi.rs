//! Hand-written bindings to the LLVM C API (the libLLVM rustc itself uses) and Z3.
#![allow(non_snake_case, non_camel_case_types, dead_code)]
use std::os::raw::{c_char, c_int, c_uint, c_void};
pub type P = *mut c_void;

extern "C" {
    pub fn LLVMContextCreate() -> P;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseBitcodeInContext2(ctx: P, buf: P, out: *mut P) -> c_int;
    pub fn LLVMGetModuleDataLayout(m: P) -> P;
    pub fn LLVMGetFirstFunction(m: P) -> P;
    pub fn LLVMGetNextFunction(f: P) -> P;
    pub fn LLVMGetFirstGlobal(m: P) -> P;
    pub fn LLVMGetNextGlobal(g: P) -> P;
    pub fn LLVMGetFirstGlobalAlias(m: P) -> P;
    pub fn LLVMGetNextGlobalAlias(g: P) -> P;
    pub fn LLVMAliasGetAliasee(g: P) -> P;
    pub fn LLVMGetValueName2(v: P, len: *mut usize) -> *const c_char;
    pub fn LLVMIsDeclaration(v: P) -> c_int;
    pub fn LLVMGetInitializer(v: P) -> P;
    pub fn LLVMGlobalGetValueType(v: P) -> P;
    pub fn LLVMIsGlobalConstant(v: P) -> c_int;
    pub fn LLVMGetLinkage(v: P) -> c_int;
    pub fn LLVMCountParams(f: P) -> c_uint;
    pub fn LLVMGetParam(f: P, i: c_uint) -> P;
    pub fn LLVMGetFirstBasicBlock(f: P) -> P;
    pub fn LLVMGetNextBasicBlock(b: P) -> P;
    pub fn LLVMGetFirstInstruction(b: P) -> P;
    pub fn LLVMGetNextInstruction(i: P) -> P;
    pub fn LLVMGetInstructionOpcode(i: P) -> c_int;
    pub fn LLVMTypeOf(v: P) -> P;
    pub fn LLVMGetTypeKind(t: P) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: P) -> c_uint;
    pub fn LLVMGetElementType(t: P) -> P;
    pub fn LLVMGetArrayLength2(t: P) -> u64;
    pub fn LLVMGetVectorSize(t: P) -> c_uint;
    pub fn LLVMCountStructElementTypes(t: P) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
    pub fn LLVMOffsetOfElement(td: P, t: P, i: c_uint) -> u64;
    pub fn LLVMABISizeOfType(td: P, t: P) -> u64;
    pub fn LLVMStoreSizeOfType(td: P, t: P) -> u64;
    pub fn LLVMABIAlignmentOfType(td: P, t: P) -> c_uint;
    pub fn LLVMGetReturnType(t: P) -> P;
    pub fn LLVMGetNumOperands(v: P) -> c_int;
    pub fn LLVMGetOperand(v: P, i: c_uint) -> P;
    pub fn LLVMIsConstant(v: P) -> c_int;
    pub fn LLVMGetValueKind(v: P) -> c_int;
    pub fn LLVMConstIntGetZExtValue(v: P) -> u64;
    pub fn LLVMConstRealGetDouble(v: P, loses: *mut c_int) -> f64;
    pub fn LLVMGetAggregateElement(v: P, i: c_uint) -> P;
    pub fn LLVMGetConstOpcode(v: P) -> c_int;
    pub fn LLVMGetGEPSourceElementType(v: P) -> P;
    pub fn LLVMPrintValueToString(v: P) -> *mut c_char;
    pub fn LLVMGetICmpPredicate(v: P) -> c_int;
    pub fn LLVMGetFCmpPredicate(v: P) -> c_int;
    pub fn LLVMCountIncoming(v: P) -> c_uint;
    pub fn LLVMGetIncomingValue(v: P, i: c_uint) -> P;
    pub fn LLVMGetIncomingBlock(v: P, i: c_uint) -> P;
    pub fn LLVMGetNumSuccessors(v: P) -> c_uint;
    pub fn LLVMGetSuccessor(v: P, i: c_uint) -> P;
    pub fn LLVMGetCondition(v: P) -> P;
    pub fn LLVMGetSwitchCaseValue(v: P, i: c_uint) -> P;
    pub fn LLVMGetCalledValue(v: P) -> P;
    pub fn LLVMGetNumArgOperands(v: P) -> c_uint;
    pub fn LLVMGetCalledFunctionType(v: P) -> P;
    pub fn LLVMGetNumIndices(v: P) -> c_uint;
    pub fn LLVMGetIndices(v: P) -> *const c_uint;
    pub fn LLVMGetNumMaskElements(v: P) -> c_uint;
    pub fn LLVMGetMaskValue(v: P, i: c_uint) -> c_int;
    pub fn LLVMGetAtomicRMWBinOp(v: P) -> c_int;
    pub fn LLVMGetAllocatedType(v: P) -> P;
    pub fn LLVMGetInlineAsmAsmString(v: P, len: *mut usize) -> *const c_char;
    pub fn LLVMGetNormalDest(v: P) -> P;
    pub fn LLVMGetRawDataValues(v: P, len: *mut usize) -> *const c_char;
    pub fn LLVMGetEnumAttributeKindForName(n: *const c_char, len: usize) -> c_uint;
    pub fn LLVMGetCallSiteEnumAttribute(c: P, idx: c_uint, kind: c_uint) -> P;
    pub fn LLVMGetTypeAttributeValue(a: P) -> P;
    pub fn LLVMIsATruncInst(v: P) -> P;
}

extern "C" {
    pub fn Z3_mk_config() -> P;
    pub fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    pub fn Z3_mk_context(c: P) -> P;
    pub fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    pub fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    pub fn Z3_mk_solver(c: P) -> P;
    pub fn Z3_mk_simple_solver(c: P) -> P;
    pub fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    pub fn Z3_tactic_inc_ref(c: P, t: P);
    pub fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    pub fn Z3_solver_inc_ref(c: P, s: P);
    pub fn Z3_solver_dec_ref(c: P, s: P);
    pub fn Z3_solver_set_params(c: P, s: P, p: P);
    pub fn Z3_mk_params(c: P) -> P;
    pub fn Z3_params_inc_ref(c: P, p: P);
    pub fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    pub fn Z3_solver_push(c: P, s: P);
    pub fn Z3_solver_pop(c: P, s: P, n: c_uint);
    pub fn Z3_solver_reset(c: P, s: P);
    pub fn Z3_solver_assert(c: P, s: P, a: P);
    pub fn Z3_solver_check(c: P, s: P) -> c_int;
    pub fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    pub fn Z3_solver_get_model(c: P, s: P) -> P;
    pub fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    pub fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    pub fn Z3_model_inc_ref(c: P, m: P);
    pub fn Z3_model_dec_ref(c: P, m: P);
    pub fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    pub fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    pub fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    pub fn Z3_get_numeral_int64(c: P, a: P, out: *mut i64) -> bool;
    pub fn Z3_get_numeral_rational_int64(c: P, a: P, n: *mut i64, d: *mut i64) -> bool;
    pub fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
    pub fn Z3_inc_ref(c: P, a: P);
    pub fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    pub fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    pub fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    pub fn Z3_mk_bool_sort(c: P) -> P;
    pub fn Z3_mk_int_sort(c: P) -> P;
    pub fn Z3_mk_real_sort(c: P) -> P;
    pub fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    pub fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    pub fn Z3_mk_int64(c: P, v: i64, ty: P) -> P;
    pub fn Z3_mk_true(c: P) -> P;
    pub fn Z3_mk_false(c: P) -> P;
    pub fn Z3_mk_not(c: P, a: P) -> P;
    pub fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    pub fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    pub fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    pub fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    pub fn Z3_mk_bv2int(c: P, a: P, signed: bool) -> P;
    pub fn Z3_mk_int2bv(c: P, n: c_uint, a: P) -> P;
    pub fn Z3_mk_int2real(c: P, a: P) -> P;
    pub fn Z3_mk_real2int(c: P, a: P) -> P;
    pub fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_div(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_unary_minus(c: P, a: P) -> P;
    pub fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_le(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_sort_64(c: P) -> P;
    pub fn Z3_mk_fpa_rne(c: P) -> P;
    pub fn Z3_mk_fpa_rtz(c: P) -> P;
    pub fn Z3_mk_fpa_rtn(c: P) -> P;
    pub fn Z3_mk_fpa_rtp(c: P) -> P;
    pub fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    pub fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    pub fn Z3_mk_fpa_neg(c: P, a: P) -> P;
    pub fn Z3_mk_fpa_abs(c: P, a: P) -> P;
    pub fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    pub fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    pub fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    pub fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    pub fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    pub fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, n: c_uint) -> P;
    pub fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, n: c_uint) -> P;
    pub fn Z3_get_full_version() -> *const c_char;
}

extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
    pub fn pipe(fds: *mut c_int) -> c_int;
    pub fn _exit(c: c_int) -> !;
    pub fn mmap(a: P, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> P;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn sysconf(n: c_int) -> i64;
}

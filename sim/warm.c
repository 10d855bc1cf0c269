// Initialises LLVM in the process from which all simulated processes are
// forked, so that each run does not pay for it again.  Runs no compiler code
// of the project.
#include <llvm-c/Core.h>
#include <llvm-c/Target.h>
#include <llvm-c/TargetMachine.h>
#include <llvm-c/Transforms/PassBuilder.h>

void warm_llvm(void) {
	LLVMInitializeAllTargetInfos();
	LLVMInitializeAllTargets();
	LLVMInitializeAllTargetMCs();
	LLVMInitializeAllAsmPrinters();
	LLVMInitializeAllAsmParsers();
	LLVMInitializeAllDisassemblers();
	char *triple = LLVMGetDefaultTargetTriple(), *err = 0;
	LLVMTargetRef t = 0;
	if (LLVMGetTargetFromTriple(triple, &t, &err)) { LLVMDisposeMessage(triple); return; }
	char *cpu = LLVMGetHostCPUName(), *feat = LLVMGetHostCPUFeatures();
	LLVMContextRef ctx = LLVMContextCreate();
	LLVMModuleRef m = LLVMModuleCreateWithNameInContext("warm", ctx);
	LLVMBuilderRef b = LLVMCreateBuilderInContext(ctx);
	LLVMTypeRef ft = LLVMFunctionType(LLVMInt64TypeInContext(ctx), 0, 0, 0);
	LLVMValueRef f = LLVMAddFunction(m, "warm", ft);
	LLVMPositionBuilderAtEnd(b, LLVMAppendBasicBlockInContext(ctx, f, "entry"));
	LLVMBuildRet(b, LLVMConstInt(LLVMInt64TypeInContext(ctx), 3, 0));
	for (int k = 0; k < 2; k++) {
		LLVMTargetMachineRef tm = LLVMCreateTargetMachine(t, triple, cpu, feat, LLVMCodeGenLevelDefault, LLVMRelocDefault, LLVMCodeModelDefault);
		if (k) {
			LLVMPassBuilderOptionsRef o = LLVMCreatePassBuilderOptions();
			LLVMRunPasses(m, "default<O2>", tm, o);
			LLVMDisposePassBuilderOptions(o);
		}
		LLVMMemoryBufferRef buf = 0;
		if (!LLVMTargetMachineEmitToMemoryBuffer(tm, m, k ? LLVMObjectFile : LLVMAssemblyFile, &err, &buf)) LLVMDisposeMemoryBuffer(buf);
		LLVMDisposeTargetMachine(tm);
	}
	LLVMDisposeBuilder(b);
	LLVMDisposeModule(m);
	LLVMContextDispose(ctx);
	LLVMDisposeMessage(triple); LLVMDisposeMessage(cpu); LLVMDisposeMessage(feat);
}

#!/usr/bin/env python3
"""LLVM IR with one function per fcmp predicate (all 16), scalar and vector."""
P = ["false","oeq","ogt","oge","olt","ole","one","ord","ueq","ugt","uge","ult","ule","une","uno","true"]
print('target triple = "x86_64-pc-linux-gnu"')
for T in ("float","double"):
    for p in P:
        print(f"define i32 @pred_{T}_{p}({T} %a, {T} %b) noinline {{\n %c = fcmp {p} {T} %a, %b\n %r = zext i1 %c to i32\n ret i32 %r\n}}")
for T in ("float","double"):
    for n in (2, 4, 8, 16):
        al = n * (4 if T == "float" else 8)
        for p in P:
            print(f"define void @predv_{T}{n}_{p}(ptr %pa, ptr %pb, ptr %pr) noinline {{\n %a = load <{n} x {T}>, ptr %pa, align {al}\n %b = load <{n} x {T}>, ptr %pb, align {al}\n"
                  f" %c = fcmp {p} <{n} x {T}> %a, %b\n %r = zext <{n} x i1> %c to <{n} x i32>\n store <{n} x i32> %r, ptr %pr, align 4\n ret void\n}}")

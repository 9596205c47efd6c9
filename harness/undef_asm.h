#undef ah
#undef al
#undef align16
#undef align32
#undef ax
#undef bh
#undef bl
#undef bp
#undef bx
#undef ch
#undef cl
#undef cx
#undef dh
#undef di
#undef dl
#undef dx
#undef eax
#undef ebp
#undef ebx
#undef ecx
#undef edi
#undef edx
#undef esi
#undef esp
#undef r10
#undef r10b
#undef r10d
#undef r10w
#undef r11
#undef r11b
#undef r11d
#undef r11w
#undef r12
#undef r12b
#undef r12d
#undef r12w
#undef r13
#undef r13b
#undef r13d
#undef r13w
#undef r14
#undef r14b
#undef r14d
#undef r14w
#undef r15
#undef r15b
#undef r15d
#undef r15w
#undef r8
#undef r8b
#undef r8d
#undef r8w
#undef r9
#undef r9b
#undef r9d
#undef r9w
#undef rax
#undef rbp
#undef rbx
#undef rcx
#undef rdi
#undef rdx
#undef rsi
#undef rsp
#undef si
#undef sp
#undef xmm0
#undef xmm1
#undef xmm10
#undef xmm11
#undef xmm12
#undef xmm13
#undef xmm14
#undef xmm15
#undef xmm16
#undef xmm17
#undef xmm18
#undef xmm19
#undef xmm2
#undef xmm20
#undef xmm21
#undef xmm22
#undef xmm23
#undef xmm24
#undef xmm25
#undef xmm26
#undef xmm27
#undef xmm28
#undef xmm29
#undef xmm3
#undef xmm30
#undef xmm31
#undef xmm4
#undef xmm5
#undef xmm6
#undef xmm7
#undef xmm8
#undef xmm9
#undef ymm0
#undef ymm1
#undef ymm10
#undef ymm11
#undef ymm12
#undef ymm13
#undef ymm14
#undef ymm15
#undef ymm16
#undef ymm17
#undef ymm18
#undef ymm19
#undef ymm2
#undef ymm20
#undef ymm21
#undef ymm22
#undef ymm23
#undef ymm24
#undef ymm25
#undef ymm26
#undef ymm27
#undef ymm28
#undef ymm29
#undef ymm3
#undef ymm30
#undef ymm31
#undef ymm4
#undef ymm5
#undef ymm6
#undef ymm7
#undef ymm8
#undef ymm9
#undef zmm0
#undef zmm1
#undef zmm10
#undef zmm11
#undef zmm12
#undef zmm13
#undef zmm14
#undef zmm15
#undef zmm16
#undef zmm17
#undef zmm18
#undef zmm19
#undef zmm2
#undef zmm20
#undef zmm21
#undef zmm22
#undef zmm23
#undef zmm24
#undef zmm25
#undef zmm26
#undef zmm27
#undef zmm28
#undef zmm29
#undef zmm3
#undef zmm30
#undef zmm31
#undef zmm4
#undef zmm5
#undef zmm6
#undef zmm7
#undef zmm8
#undef zmm9

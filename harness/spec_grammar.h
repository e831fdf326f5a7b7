// generated by tools/gen_spec.py from the Khronos SPIR-V grammar (spirv-headers)
#pragma once
static const char* const specGrammarText[] = {
"K ImageOperands BitEnum",
"V ImageOperands 0 None 0 0 - -",
"V ImageOperands 1 Bias 65536 0 1 - IdRef",
"V ImageOperands 2 Lod 65536 0 - - IdRef",
"V ImageOperands 4 Grad 65536 0 - - IdRef IdRef",
"V ImageOperands 8 ConstOffset 65536 0 - - IdRef",
"V ImageOperands 16 Offset 65536 0 25 - IdRef",
"V ImageOperands 32 ConstOffsets 65536 0 25 - IdRef",
"V ImageOperands 64 Sample 65536 0 - - IdRef",
"V ImageOperands 128 MinLod 65536 0 42 - IdRef",
"V ImageOperands 256 MakeTexelAvailable 66816 0 5345 - IdScope",
"V ImageOperands 256 MakeTexelAvailableKHR 66816 0 5345 SPV_KHR_vulkan_memory_model IdScope",
"V ImageOperands 512 MakeTexelVisible 66816 0 5345 - IdScope",
"V ImageOperands 512 MakeTexelVisibleKHR 66816 0 5345 SPV_KHR_vulkan_memory_model IdScope",
"V ImageOperands 1024 NonPrivateTexel 66816 0 5345 -",
"V ImageOperands 1024 NonPrivateTexelKHR 66816 0 5345 SPV_KHR_vulkan_memory_model",
"V ImageOperands 2048 VolatileTexel 66816 0 5345 -",
"V ImageOperands 2048 VolatileTexelKHR 66816 0 5345 SPV_KHR_vulkan_memory_model",
"V ImageOperands 4096 SignExtend 66560 0 - -",
"V ImageOperands 8192 ZeroExtend 66560 0 - -",
"V ImageOperands 16384 Nontemporal 67072 0 - -",
"V ImageOperands 65536 Offsets 65536 0 - - IdRef",
"K FPFastMathMode BitEnum",
"V FPFastMathMode 0 None 65536 0 - -",
"V FPFastMathMode 1 NotNaN 65536 0 - -",
"V FPFastMathMode 2 NotInf 65536 0 - -",
"V FPFastMathMode 4 NSZ 65536 0 - -",
"V FPFastMathMode 8 AllowRecip 65536 0 - -",
"V FPFastMathMode 16 Fast 65536 0 - -",
"V FPFastMathMode 65536 AllowContract none 0 6029,5837 -",
"V FPFastMathMode 65536 AllowContractFastINTEL none 0 6029,5837 -",
"V FPFastMathMode 131072 AllowReassoc none 0 6029,5837 -",
"V FPFastMathMode 131072 AllowReassocINTEL none 0 6029,5837 -",
"V FPFastMathMode 262144 AllowTransform none 0 6029 -",
"K SelectionControl BitEnum",
"V SelectionControl 0 None 65536 0 - -",
"V SelectionControl 1 Flatten 65536 0 - -",
"V SelectionControl 2 DontFlatten 65536 0 - -",
"K LoopControl BitEnum",
"V LoopControl 0 None 65536 0 - -",
"V LoopControl 1 Unroll 65536 0 - -",
"V LoopControl 2 DontUnroll 65536 0 - -",
"V LoopControl 4 DependencyInfinite 65792 0 - -",
"V LoopControl 8 DependencyLength 65792 0 - - LiteralInteger",
"V LoopControl 16 MinIterations 66560 0 - - LiteralInteger",
"V LoopControl 32 MaxIterations 66560 0 - - LiteralInteger",
"V LoopControl 64 IterationMultiple 66560 0 - - LiteralInteger",
"V LoopControl 128 PeelCount 66560 0 - - LiteralInteger",
"V LoopControl 256 PartialCount 66560 0 - - LiteralInteger",
"V LoopControl 65536 InitiationIntervalINTEL none 0 5888 - LiteralInteger",
"V LoopControl 131072 MaxConcurrencyINTEL none 0 5888 - LiteralInteger",
"V LoopControl 262144 DependencyArrayINTEL none 0 5888 - LiteralInteger",
"V LoopControl 524288 PipelineEnableINTEL none 0 5888 - LiteralInteger",
"V LoopControl 1048576 LoopCoalesceINTEL none 0 5888 - LiteralInteger",
"V LoopControl 2097152 MaxInterleavingINTEL none 0 5888 - LiteralInteger",
"V LoopControl 4194304 SpeculatedIterationsINTEL none 0 5888 - LiteralInteger",
"V LoopControl 8388608 NoFusionINTEL none 0 5888 -",
"V LoopControl 16777216 LoopCountINTEL none 0 5888 - LiteralInteger",
"V LoopControl 33554432 MaxReinvocationDelayINTEL none 0 5888 - LiteralInteger",
"K FunctionControl BitEnum",
"V FunctionControl 0 None 65536 0 - -",
"V FunctionControl 1 Inline 65536 0 - -",
"V FunctionControl 2 DontInline 65536 0 - -",
"V FunctionControl 4 Pure 65536 0 - -",
"V FunctionControl 8 Const 65536 0 - -",
"V FunctionControl 65536 OptNoneINTEL none 0 6094 -",
"K MemorySemantics BitEnum",
"V MemorySemantics 0 Relaxed 65536 0 - -",
"V MemorySemantics 0 None 65536 0 - -",
"V MemorySemantics 2 Acquire 65536 0 - -",
"V MemorySemantics 4 Release 65536 0 - -",
"V MemorySemantics 8 AcquireRelease 65536 0 - -",
"V MemorySemantics 16 SequentiallyConsistent 65536 0 - -",
"V MemorySemantics 64 UniformMemory 65536 0 1 -",
"V MemorySemantics 128 SubgroupMemory 65536 0 - -",
"V MemorySemantics 256 WorkgroupMemory 65536 0 - -",
"V MemorySemantics 512 CrossWorkgroupMemory 65536 0 - -",
"V MemorySemantics 1024 AtomicCounterMemory 65536 0 21 -",
"V MemorySemantics 2048 ImageMemory 65536 0 - -",
"V MemorySemantics 4096 OutputMemory 66816 0 5345 -",
"V MemorySemantics 4096 OutputMemoryKHR 66816 0 5345 SPV_KHR_vulkan_memory_model",
"V MemorySemantics 8192 MakeAvailable 66816 0 5345 -",
"V MemorySemantics 8192 MakeAvailableKHR 66816 0 5345 SPV_KHR_vulkan_memory_model",
"V MemorySemantics 16384 MakeVisible 66816 0 5345 -",
"V MemorySemantics 16384 MakeVisibleKHR 66816 0 5345 SPV_KHR_vulkan_memory_model",
"V MemorySemantics 32768 Volatile 66816 0 5345 SPV_KHR_vulkan_memory_model",
"K MemoryAccess BitEnum",
"V MemoryAccess 0 None 65536 0 - -",
"V MemoryAccess 1 Volatile 65536 0 - -",
"V MemoryAccess 2 Aligned 65536 0 - - LiteralInteger",
"V MemoryAccess 4 Nontemporal 65536 0 - -",
"V MemoryAccess 8 MakePointerAvailable 66816 0 5345 - IdScope",
"V MemoryAccess 8 MakePointerAvailableKHR 66816 0 5345 SPV_KHR_vulkan_memory_model IdScope",
"V MemoryAccess 16 MakePointerVisible 66816 0 5345 - IdScope",
"V MemoryAccess 16 MakePointerVisibleKHR 66816 0 5345 SPV_KHR_vulkan_memory_model IdScope",
"V MemoryAccess 32 NonPrivatePointer 66816 0 5345 -",
"V MemoryAccess 32 NonPrivatePointerKHR 66816 0 5345 SPV_KHR_vulkan_memory_model",
"V MemoryAccess 65536 AliasScopeINTELMask none 0 5910 SPV_INTEL_memory_access_aliasing IdRef",
"V MemoryAccess 131072 NoAliasINTELMask none 0 5910 SPV_INTEL_memory_access_aliasing IdRef",
"K KernelProfilingInfo BitEnum",
"V KernelProfilingInfo 0 None 65536 0 - -",
"V KernelProfilingInfo 1 CmdExecTime 65536 0 6 -",
"K RayFlags BitEnum",
"V RayFlags 0 NoneKHR none 0 4472,4479 -",
"V RayFlags 1 OpaqueKHR none 0 4472,4479 -",
"V RayFlags 2 NoOpaqueKHR none 0 4472,4479 -",
"V RayFlags 4 TerminateOnFirstHitKHR none 0 4472,4479 -",
"V RayFlags 8 SkipClosestHitShaderKHR none 0 4472,4479 -",
"V RayFlags 16 CullBackFacingTrianglesKHR none 0 4472,4479 -",
"V RayFlags 32 CullFrontFacingTrianglesKHR none 0 4472,4479 -",
"V RayFlags 64 CullOpaqueKHR none 0 4472,4479 -",
"V RayFlags 128 CullNoOpaqueKHR none 0 4472,4479 -",
"V RayFlags 256 SkipTrianglesKHR none 0 4478 -",
"V RayFlags 512 SkipAABBsKHR none 0 4478 -",
"V RayFlags 1024 ForceOpacityMicromap2StateEXT none 0 5381 -",
"K FragmentShadingRate BitEnum",
"V FragmentShadingRate 1 Vertical2Pixels none 0 4422 -",
"V FragmentShadingRate 2 Vertical4Pixels none 0 4422 -",
"V FragmentShadingRate 4 Horizontal2Pixels none 0 4422 -",
"V FragmentShadingRate 8 Horizontal4Pixels none 0 4422 -",
"K SourceLanguage ValueEnum",
"V SourceLanguage 0 Unknown 65536 0 - -",
"V SourceLanguage 1 ESSL 65536 0 - -",
"V SourceLanguage 2 GLSL 65536 0 - -",
"V SourceLanguage 3 OpenCL_C 65536 0 - -",
"V SourceLanguage 4 OpenCL_CPP 65536 0 - -",
"V SourceLanguage 5 HLSL 65536 0 - -",
"V SourceLanguage 6 CPP_for_OpenCL 65536 0 - -",
"V SourceLanguage 7 SYCL 65536 0 - -",
"V SourceLanguage 8 HERO_C 65536 0 - -",
"V SourceLanguage 9 NZSL 65536 0 - -",
"V SourceLanguage 10 WGSL 65536 0 - -",
"V SourceLanguage 11 Slang 65536 0 - -",
"V SourceLanguage 12 Zig 65536 0 - -",
"K ExecutionModel ValueEnum",
"V ExecutionModel 0 Vertex 65536 0 1 -",
"V ExecutionModel 1 TessellationControl 65536 0 3 -",
"V ExecutionModel 2 TessellationEvaluation 65536 0 3 -",
"V ExecutionModel 3 Geometry 65536 0 2 -",
"V ExecutionModel 4 Fragment 65536 0 1 -",
"V ExecutionModel 5 GLCompute 65536 0 1 -",
"V ExecutionModel 6 Kernel 65536 0 6 -",
"V ExecutionModel 5267 TaskNV none 0 5266 -",
"V ExecutionModel 5268 MeshNV none 0 5266 -",
"V ExecutionModel 5313 RayGenerationNV none 0 5340,4479 -",
"V ExecutionModel 5313 RayGenerationKHR none 0 5340,4479 -",
"V ExecutionModel 5314 IntersectionNV none 0 5340,4479 -",
"V ExecutionModel 5314 IntersectionKHR none 0 5340,4479 -",
"V ExecutionModel 5315 AnyHitNV none 0 5340,4479 -",
"V ExecutionModel 5315 AnyHitKHR none 0 5340,4479 -",
"V ExecutionModel 5316 ClosestHitNV none 0 5340,4479 -",
"V ExecutionModel 5316 ClosestHitKHR none 0 5340,4479 -",
"V ExecutionModel 5317 MissNV none 0 5340,4479 -",
"V ExecutionModel 5317 MissKHR none 0 5340,4479 -",
"V ExecutionModel 5318 CallableNV none 0 5340,4479 -",
"V ExecutionModel 5318 CallableKHR none 0 5340,4479 -",
"V ExecutionModel 5364 TaskEXT none 0 5283 -",
"V ExecutionModel 5365 MeshEXT none 0 5283 -",
"K AddressingModel ValueEnum",
"V AddressingModel 0 Logical 65536 0 - -",
"V AddressingModel 1 Physical32 65536 0 4 -",
"V AddressingModel 2 Physical64 65536 0 4 -",
"V AddressingModel 5348 PhysicalStorageBuffer64 66816 0 5347 SPV_EXT_physical_storage_buffer,SPV_KHR_physical_storage_buffer",
"V AddressingModel 5348 PhysicalStorageBuffer64EXT 66816 0 5347 SPV_EXT_physical_storage_buffer",
"K MemoryModel ValueEnum",
"V MemoryModel 0 Simple 65536 0 1 -",
"V MemoryModel 1 GLSL450 65536 0 1 -",
"V MemoryModel 2 OpenCL 65536 0 6 -",
"V MemoryModel 3 Vulkan 66816 0 5345 -",
"V MemoryModel 3 VulkanKHR 66816 0 5345 SPV_KHR_vulkan_memory_model",
"K ExecutionMode ValueEnum",
"V ExecutionMode 0 Invocations 65536 0 2 - LiteralInteger",
"V ExecutionMode 1 SpacingEqual 65536 0 3 -",
"V ExecutionMode 2 SpacingFractionalEven 65536 0 3 -",
"V ExecutionMode 3 SpacingFractionalOdd 65536 0 3 -",
"V ExecutionMode 4 VertexOrderCw 65536 0 3 -",
"V ExecutionMode 5 VertexOrderCcw 65536 0 3 -",
"V ExecutionMode 6 PixelCenterInteger 65536 0 1 -",
"V ExecutionMode 7 OriginUpperLeft 65536 0 1 -",
"V ExecutionMode 8 OriginLowerLeft 65536 0 1 -",
"V ExecutionMode 9 EarlyFragmentTests 65536 0 1 -",
"V ExecutionMode 10 PointMode 65536 0 3 -",
"V ExecutionMode 11 Xfb 65536 0 53 -",
"V ExecutionMode 12 DepthReplacing 65536 0 1 -",
"V ExecutionMode 14 DepthGreater 65536 0 1 -",
"V ExecutionMode 15 DepthLess 65536 0 1 -",
"V ExecutionMode 16 DepthUnchanged 65536 0 1 -",
"V ExecutionMode 17 LocalSize 65536 0 - - LiteralInteger LiteralInteger LiteralInteger",
"V ExecutionMode 18 LocalSizeHint 65536 0 6 - LiteralInteger LiteralInteger LiteralInteger",
"V ExecutionMode 19 InputPoints 65536 0 2 -",
"V ExecutionMode 20 InputLines 65536 0 2 -",
"V ExecutionMode 21 InputLinesAdjacency 65536 0 2 -",
"V ExecutionMode 22 Triangles 65536 0 2,3 -",
"V ExecutionMode 23 InputTrianglesAdjacency 65536 0 2 -",
"V ExecutionMode 24 Quads 65536 0 3 -",
"V ExecutionMode 25 Isolines 65536 0 3 -",
"V ExecutionMode 26 OutputVertices 65536 0 2,3,5266,5283 - LiteralInteger",
"V ExecutionMode 27 OutputPoints 65536 0 2,5266,5283 -",
"V ExecutionMode 28 OutputLineStrip 65536 0 2 -",
"V ExecutionMode 29 OutputTriangleStrip 65536 0 2 -",
"V ExecutionMode 30 VecTypeHint 65536 0 6 - LiteralInteger",
"V ExecutionMode 31 ContractionOff 65536 0 6 -",
"V ExecutionMode 33 Initializer 65792 0 6 -",
"V ExecutionMode 34 Finalizer 65792 0 6 -",
"V ExecutionMode 35 SubgroupSize 65792 0 58 - LiteralInteger",
"V ExecutionMode 36 SubgroupsPerWorkgroup 65792 0 58 - LiteralInteger",
"V ExecutionMode 37 SubgroupsPerWorkgroupId 66048 0 58 - IdRef",
"V ExecutionMode 38 LocalSizeId 66048 0 - - IdRef IdRef IdRef",
"V ExecutionMode 39 LocalSizeHintId 66048 0 6 - IdRef IdRef IdRef",
"V ExecutionMode 4169 NonCoherentColorAttachmentReadEXT none 0 4166 -",
"V ExecutionMode 4170 NonCoherentDepthAttachmentReadEXT none 0 4167 -",
"V ExecutionMode 4171 NonCoherentStencilAttachmentReadEXT none 0 4168 -",
"V ExecutionMode 4421 SubgroupUniformControlFlowKHR none 0 1 SPV_KHR_subgroup_uniform_control_flow",
"V ExecutionMode 4446 PostDepthCoverage none 0 4447 SPV_KHR_post_depth_coverage",
"V ExecutionMode 4459 DenormPreserve 66560 0 4464 SPV_KHR_float_controls LiteralInteger",
"V ExecutionMode 4460 DenormFlushToZero 66560 0 4465 SPV_KHR_float_controls LiteralInteger",
"V ExecutionMode 4461 SignedZeroInfNanPreserve 66560 0 4466 SPV_KHR_float_controls LiteralInteger",
"V ExecutionMode 4462 RoundingModeRTE 66560 0 4467 SPV_KHR_float_controls LiteralInteger",
"V ExecutionMode 4463 RoundingModeRTZ 66560 0 4468 SPV_KHR_float_controls LiteralInteger",
"V ExecutionMode 5017 EarlyAndLateFragmentTestsAMD none 0 1 SPV_AMD_shader_early_and_late_fragment_tests",
"V ExecutionMode 5027 StencilRefReplacingEXT none 0 5013 SPV_EXT_shader_stencil_export",
"V ExecutionMode 5069 CoalescingAMDX none 0 5067 -",
"V ExecutionMode 5071 MaxNodeRecursionAMDX none 0 5067 - IdRef",
"V ExecutionMode 5072 StaticNumWorkgroupsAMDX none 0 5067 - IdRef IdRef IdRef",
"V ExecutionMode 5073 ShaderIndexAMDX none 0 5067 - IdRef",
"V ExecutionMode 5077 MaxNumWorkgroupsAMDX none 0 5067 - IdRef IdRef IdRef",
"V ExecutionMode 5079 StencilRefUnchangedFrontAMD none 0 5013 SPV_AMD_shader_early_and_late_fragment_tests,SPV_EXT_shader_stencil_export",
"V ExecutionMode 5080 StencilRefGreaterFrontAMD none 0 5013 SPV_AMD_shader_early_and_late_fragment_tests,SPV_EXT_shader_stencil_export",
"V ExecutionMode 5081 StencilRefLessFrontAMD none 0 5013 SPV_AMD_shader_early_and_late_fragment_tests,SPV_EXT_shader_stencil_export",
"V ExecutionMode 5082 StencilRefUnchangedBackAMD none 0 5013 SPV_AMD_shader_early_and_late_fragment_tests,SPV_EXT_shader_stencil_export",
"V ExecutionMode 5083 StencilRefGreaterBackAMD none 0 5013 SPV_AMD_shader_early_and_late_fragment_tests,SPV_EXT_shader_stencil_export",
"V ExecutionMode 5084 StencilRefLessBackAMD none 0 5013 SPV_AMD_shader_early_and_late_fragment_tests,SPV_EXT_shader_stencil_export",
"V ExecutionMode 5088 QuadDerivativesKHR none 0 5087 -",
"V ExecutionMode 5089 RequireFullQuadsKHR none 0 5087 -",
"V ExecutionMode 5269 OutputLinesNV none 0 5266,5283 SPV_NV_mesh_shader,SPV_EXT_mesh_shader",
"V ExecutionMode 5269 OutputLinesEXT none 0 5266,5283 SPV_NV_mesh_shader,SPV_EXT_mesh_shader",
"V ExecutionMode 5270 OutputPrimitivesNV none 0 5266,5283 SPV_NV_mesh_shader,SPV_EXT_mesh_shader LiteralInteger",
"V ExecutionMode 5270 OutputPrimitivesEXT none 0 5266,5283 SPV_NV_mesh_shader,SPV_EXT_mesh_shader LiteralInteger",
"V ExecutionMode 5289 DerivativeGroupQuadsNV none 0 5288 SPV_NV_compute_shader_derivatives",
"V ExecutionMode 5290 DerivativeGroupLinearNV none 0 5350 SPV_NV_compute_shader_derivatives",
"V ExecutionMode 5298 OutputTrianglesNV none 0 5266,5283 SPV_NV_mesh_shader,SPV_EXT_mesh_shader",
"V ExecutionMode 5298 OutputTrianglesEXT none 0 5266,5283 SPV_NV_mesh_shader,SPV_EXT_mesh_shader",
"V ExecutionMode 5366 PixelInterlockOrderedEXT none 0 5378 SPV_EXT_fragment_shader_interlock",
"V ExecutionMode 5367 PixelInterlockUnorderedEXT none 0 5378 SPV_EXT_fragment_shader_interlock",
"V ExecutionMode 5368 SampleInterlockOrderedEXT none 0 5363 SPV_EXT_fragment_shader_interlock",
"V ExecutionMode 5369 SampleInterlockUnorderedEXT none 0 5363 SPV_EXT_fragment_shader_interlock",
"V ExecutionMode 5370 ShadingRateInterlockOrderedEXT none 0 5372 SPV_EXT_fragment_shader_interlock",
"V ExecutionMode 5371 ShadingRateInterlockUnorderedEXT none 0 5372 SPV_EXT_fragment_shader_interlock",
"V ExecutionMode 5618 SharedLocalMemorySizeINTEL none 0 5617 - LiteralInteger",
"V ExecutionMode 5620 RoundingModeRTPINTEL none 0 5582 - LiteralInteger",
"V ExecutionMode 5621 RoundingModeRTNINTEL none 0 5582 - LiteralInteger",
"V ExecutionMode 5622 FloatingPointModeALTINTEL none 0 5582 - LiteralInteger",
"V ExecutionMode 5623 FloatingPointModeIEEEINTEL none 0 5582 - LiteralInteger",
"V ExecutionMode 5893 MaxWorkgroupSizeINTEL none 0 5892 SPV_INTEL_kernel_attributes LiteralInteger LiteralInteger LiteralInteger",
"V ExecutionMode 5894 MaxWorkDimINTEL none 0 5892 SPV_INTEL_kernel_attributes LiteralInteger",
"V ExecutionMode 5895 NoGlobalOffsetINTEL none 0 5892 SPV_INTEL_kernel_attributes",
"V ExecutionMode 5896 NumSIMDWorkitemsINTEL none 0 5897 SPV_INTEL_kernel_attributes LiteralInteger",
"V ExecutionMode 5903 SchedulerTargetFmaxMhzINTEL none 0 5897 - LiteralInteger",
"V ExecutionMode 6023 MaximallyReconvergesKHR none 0 1 SPV_KHR_maximal_reconvergence",
"V ExecutionMode 6028 FPFastMathDefault none 0 6029 - IdRef IdRef",
"V ExecutionMode 6154 StreamingInterfaceINTEL none 0 5897 - LiteralInteger",
"V ExecutionMode 6160 RegisterMapInterfaceINTEL none 0 6161 - LiteralInteger",
"V ExecutionMode 6417 NamedBarrierCountINTEL none 0 5617 - LiteralInteger",
"V ExecutionMode 6461 MaximumRegistersINTEL none 0 6460 - LiteralInteger",
"V ExecutionMode 6462 MaximumRegistersIdINTEL none 0 6460 - IdRef",
"V ExecutionMode 6463 NamedMaximumRegistersINTEL none 0 6460 - NamedMaximumNumberOfRegisters",
"K StorageClass ValueEnum",
"V StorageClass 0 UniformConstant 65536 0 - -",
"V StorageClass 1 Input 65536 0 - -",
"V StorageClass 2 Uniform 65536 0 1 -",
"V StorageClass 3 Output 65536 0 1 -",
"V StorageClass 4 Workgroup 65536 0 - -",
"V StorageClass 5 CrossWorkgroup 65536 0 - -",
"V StorageClass 6 Private 65536 0 1,5617 -",
"V StorageClass 7 Function 65536 0 - -",
"V StorageClass 8 Generic 65536 0 38 -",
"V StorageClass 9 PushConstant 65536 0 1 -",
"V StorageClass 10 AtomicCounter 65536 0 21 -",
"V StorageClass 11 Image 65536 0 - -",
"V StorageClass 12 StorageBuffer 66304 0 1 SPV_KHR_storage_buffer_storage_class,SPV_KHR_variable_pointers",
"V StorageClass 4172 TileImageEXT none 0 4166 -",
"V StorageClass 5068 NodePayloadAMDX none 0 5067 -",
"V StorageClass 5076 NodeOutputPayloadAMDX none 0 5067 -",
"V StorageClass 5328 CallableDataNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V StorageClass 5328 CallableDataKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V StorageClass 5329 IncomingCallableDataNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V StorageClass 5329 IncomingCallableDataKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V StorageClass 5338 RayPayloadNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V StorageClass 5338 RayPayloadKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V StorageClass 5339 HitAttributeNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V StorageClass 5339 HitAttributeKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V StorageClass 5342 IncomingRayPayloadNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V StorageClass 5342 IncomingRayPayloadKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V StorageClass 5343 ShaderRecordBufferNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V StorageClass 5343 ShaderRecordBufferKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V StorageClass 5349 PhysicalStorageBuffer 66816 0 5347 SPV_EXT_physical_storage_buffer,SPV_KHR_physical_storage_buffer",
"V StorageClass 5349 PhysicalStorageBufferEXT 66816 0 5347 SPV_EXT_physical_storage_buffer",
"V StorageClass 5385 HitObjectAttributeNV none 0 5383 -",
"V StorageClass 5402 TaskPayloadWorkgroupEXT 66560 0 5283 SPV_EXT_mesh_shader",
"V StorageClass 5605 CodeSectionINTEL none 0 5603 SPV_INTEL_function_pointers",
"V StorageClass 5936 DeviceOnlyINTEL none 0 5935 SPV_INTEL_usm_storage_classes",
"V StorageClass 5937 HostOnlyINTEL none 0 5935 SPV_INTEL_usm_storage_classes",
"K Dim ValueEnum",
"V Dim 0 1D 65536 0 43 -",
"V Dim 1 2D 65536 0 - -",
"V Dim 2 3D 65536 0 - -",
"V Dim 3 Cube 65536 0 1 -",
"V Dim 4 Rect 65536 0 37 -",
"V Dim 5 Buffer 65536 0 46 -",
"V Dim 6 SubpassData 65536 0 40 -",
"V Dim 4173 TileImageDataEXT none 0 4166 -",
"K SamplerAddressingMode ValueEnum",
"V SamplerAddressingMode 0 None 65536 0 - -",
"V SamplerAddressingMode 1 ClampToEdge 65536 0 - -",
"V SamplerAddressingMode 2 Clamp 65536 0 - -",
"V SamplerAddressingMode 3 Repeat 65536 0 - -",
"V SamplerAddressingMode 4 RepeatMirrored 65536 0 - -",
"K SamplerFilterMode ValueEnum",
"V SamplerFilterMode 0 Nearest 65536 0 - -",
"V SamplerFilterMode 1 Linear 65536 0 - -",
"K ImageFormat ValueEnum",
"V ImageFormat 0 Unknown 65536 0 - -",
"V ImageFormat 1 Rgba32f 65536 0 1 -",
"V ImageFormat 2 Rgba16f 65536 0 1 -",
"V ImageFormat 3 R32f 65536 0 1 -",
"V ImageFormat 4 Rgba8 65536 0 1 -",
"V ImageFormat 5 Rgba8Snorm 65536 0 1 -",
"V ImageFormat 6 Rg32f 65536 0 49 -",
"V ImageFormat 7 Rg16f 65536 0 49 -",
"V ImageFormat 8 R11fG11fB10f 65536 0 49 -",
"V ImageFormat 9 R16f 65536 0 49 -",
"V ImageFormat 10 Rgba16 65536 0 49 -",
"V ImageFormat 11 Rgb10A2 65536 0 49 -",
"V ImageFormat 12 Rg16 65536 0 49 -",
"V ImageFormat 13 Rg8 65536 0 49 -",
"V ImageFormat 14 R16 65536 0 49 -",
"V ImageFormat 15 R8 65536 0 49 -",
"V ImageFormat 16 Rgba16Snorm 65536 0 49 -",
"V ImageFormat 17 Rg16Snorm 65536 0 49 -",
"V ImageFormat 18 Rg8Snorm 65536 0 49 -",
"V ImageFormat 19 R16Snorm 65536 0 49 -",
"V ImageFormat 20 R8Snorm 65536 0 49 -",
"V ImageFormat 21 Rgba32i 65536 0 1 -",
"V ImageFormat 22 Rgba16i 65536 0 1 -",
"V ImageFormat 23 Rgba8i 65536 0 1 -",
"V ImageFormat 24 R32i 65536 0 1 -",
"V ImageFormat 25 Rg32i 65536 0 49 -",
"V ImageFormat 26 Rg16i 65536 0 49 -",
"V ImageFormat 27 Rg8i 65536 0 49 -",
"V ImageFormat 28 R16i 65536 0 49 -",
"V ImageFormat 29 R8i 65536 0 49 -",
"V ImageFormat 30 Rgba32ui 65536 0 1 -",
"V ImageFormat 31 Rgba16ui 65536 0 1 -",
"V ImageFormat 32 Rgba8ui 65536 0 1 -",
"V ImageFormat 33 R32ui 65536 0 1 -",
"V ImageFormat 34 Rgb10a2ui 65536 0 49 -",
"V ImageFormat 35 Rg32ui 65536 0 49 -",
"V ImageFormat 36 Rg16ui 65536 0 49 -",
"V ImageFormat 37 Rg8ui 65536 0 49 -",
"V ImageFormat 38 R16ui 65536 0 49 -",
"V ImageFormat 39 R8ui 65536 0 49 -",
"V ImageFormat 40 R64ui 65536 0 5016 -",
"V ImageFormat 41 R64i 65536 0 5016 -",
"K ImageChannelOrder ValueEnum",
"V ImageChannelOrder 0 R 65536 0 - -",
"V ImageChannelOrder 1 A 65536 0 - -",
"V ImageChannelOrder 2 RG 65536 0 - -",
"V ImageChannelOrder 3 RA 65536 0 - -",
"V ImageChannelOrder 4 RGB 65536 0 - -",
"V ImageChannelOrder 5 RGBA 65536 0 - -",
"V ImageChannelOrder 6 BGRA 65536 0 - -",
"V ImageChannelOrder 7 ARGB 65536 0 - -",
"V ImageChannelOrder 8 Intensity 65536 0 - -",
"V ImageChannelOrder 9 Luminance 65536 0 - -",
"V ImageChannelOrder 10 Rx 65536 0 - -",
"V ImageChannelOrder 11 RGx 65536 0 - -",
"V ImageChannelOrder 12 RGBx 65536 0 - -",
"V ImageChannelOrder 13 Depth 65536 0 - -",
"V ImageChannelOrder 14 DepthStencil 65536 0 - -",
"V ImageChannelOrder 15 sRGB 65536 0 - -",
"V ImageChannelOrder 16 sRGBx 65536 0 - -",
"V ImageChannelOrder 17 sRGBA 65536 0 - -",
"V ImageChannelOrder 18 sBGRA 65536 0 - -",
"V ImageChannelOrder 19 ABGR 65536 0 - -",
"K ImageChannelDataType ValueEnum",
"V ImageChannelDataType 0 SnormInt8 65536 0 - -",
"V ImageChannelDataType 1 SnormInt16 65536 0 - -",
"V ImageChannelDataType 2 UnormInt8 65536 0 - -",
"V ImageChannelDataType 3 UnormInt16 65536 0 - -",
"V ImageChannelDataType 4 UnormShort565 65536 0 - -",
"V ImageChannelDataType 5 UnormShort555 65536 0 - -",
"V ImageChannelDataType 6 UnormInt101010 65536 0 - -",
"V ImageChannelDataType 7 SignedInt8 65536 0 - -",
"V ImageChannelDataType 8 SignedInt16 65536 0 - -",
"V ImageChannelDataType 9 SignedInt32 65536 0 - -",
"V ImageChannelDataType 10 UnsignedInt8 65536 0 - -",
"V ImageChannelDataType 11 UnsignedInt16 65536 0 - -",
"V ImageChannelDataType 12 UnsignedInt32 65536 0 - -",
"V ImageChannelDataType 13 HalfFloat 65536 0 - -",
"V ImageChannelDataType 14 Float 65536 0 - -",
"V ImageChannelDataType 15 UnormInt24 65536 0 - -",
"V ImageChannelDataType 16 UnormInt101010_2 65536 0 - -",
"V ImageChannelDataType 19 UnsignedIntRaw10EXT 65536 0 - -",
"V ImageChannelDataType 20 UnsignedIntRaw12EXT 65536 0 - -",
"K FPRoundingMode ValueEnum",
"V FPRoundingMode 0 RTE 65536 0 - -",
"V FPRoundingMode 1 RTZ 65536 0 - -",
"V FPRoundingMode 2 RTP 65536 0 - -",
"V FPRoundingMode 3 RTN 65536 0 - -",
"K FPDenormMode ValueEnum",
"V FPDenormMode 0 Preserve none 0 5821 -",
"V FPDenormMode 1 FlushToZero none 0 5821 -",
"K QuantizationModes ValueEnum",
"V QuantizationModes 0 TRN none 0 5922 -",
"V QuantizationModes 1 TRN_ZERO none 0 5922 -",
"V QuantizationModes 2 RND none 0 5922 -",
"V QuantizationModes 3 RND_ZERO none 0 5922 -",
"V QuantizationModes 4 RND_INF none 0 5922 -",
"V QuantizationModes 5 RND_MIN_INF none 0 5922 -",
"V QuantizationModes 6 RND_CONV none 0 5922 -",
"V QuantizationModes 7 RND_CONV_ODD none 0 5922 -",
"K FPOperationMode ValueEnum",
"V FPOperationMode 0 IEEE none 0 5821 -",
"V FPOperationMode 1 ALT none 0 5821 -",
"K OverflowModes ValueEnum",
"V OverflowModes 0 WRAP none 0 5922 -",
"V OverflowModes 1 SAT none 0 5922 -",
"V OverflowModes 2 SAT_ZERO none 0 5922 -",
"V OverflowModes 3 SAT_SYM none 0 5922 -",
"K LinkageType ValueEnum",
"V LinkageType 0 Export 65536 0 5 -",
"V LinkageType 1 Import 65536 0 5 -",
"V LinkageType 2 LinkOnceODR none 0 5 SPV_KHR_linkonce_odr",
"K AccessQualifier ValueEnum",
"V AccessQualifier 0 ReadOnly 65536 0 6 -",
"V AccessQualifier 1 WriteOnly 65536 0 6 -",
"V AccessQualifier 2 ReadWrite 65536 0 6 -",
"K HostAccessQualifier ValueEnum",
"V HostAccessQualifier 0 NoneINTEL none 0 6187 -",
"V HostAccessQualifier 1 ReadINTEL none 0 6187 -",
"V HostAccessQualifier 2 WriteINTEL none 0 6187 -",
"V HostAccessQualifier 3 ReadWriteINTEL none 0 6187 -",
"K FunctionParameterAttribute ValueEnum",
"V FunctionParameterAttribute 0 Zext 65536 0 6 -",
"V FunctionParameterAttribute 1 Sext 65536 0 6 -",
"V FunctionParameterAttribute 2 ByVal 65536 0 6 -",
"V FunctionParameterAttribute 3 Sret 65536 0 6 -",
"V FunctionParameterAttribute 4 NoAlias 65536 0 6 -",
"V FunctionParameterAttribute 5 NoCapture 65536 0 6 -",
"V FunctionParameterAttribute 6 NoWrite 65536 0 6 -",
"V FunctionParameterAttribute 7 NoReadWrite 65536 0 6 -",
"V FunctionParameterAttribute 5940 RuntimeAlignedINTEL 65536 0 5939 -",
"K Decoration ValueEnum",
"V Decoration 0 RelaxedPrecision 65536 0 1 -",
"V Decoration 1 SpecId 65536 0 1,6 - LiteralInteger",
"V Decoration 2 Block 65536 0 1 -",
"V Decoration 3 BufferBlock 65536 66304 1 -",
"V Decoration 4 RowMajor 65536 0 0 -",
"V Decoration 5 ColMajor 65536 0 0 -",
"V Decoration 6 ArrayStride 65536 0 1 - LiteralInteger",
"V Decoration 7 MatrixStride 65536 0 0 - LiteralInteger",
"V Decoration 8 GLSLShared 65536 0 1 -",
"V Decoration 9 GLSLPacked 65536 0 1 -",
"V Decoration 10 CPacked 65536 0 6 -",
"V Decoration 11 BuiltIn 65536 0 - - BuiltIn",
"V Decoration 13 NoPerspective 65536 0 1 -",
"V Decoration 14 Flat 65536 0 1 -",
"V Decoration 15 Patch 65536 0 3 -",
"V Decoration 16 Centroid 65536 0 1 -",
"V Decoration 17 Sample 65536 0 35 -",
"V Decoration 18 Invariant 65536 0 1 -",
"V Decoration 19 Restrict 65536 0 - -",
"V Decoration 20 Aliased 65536 0 - -",
"V Decoration 21 Volatile 65536 0 - -",
"V Decoration 22 Constant 65536 0 6 -",
"V Decoration 23 Coherent 65536 0 - -",
"V Decoration 24 NonWritable 65536 0 - -",
"V Decoration 25 NonReadable 65536 0 - -",
"V Decoration 26 Uniform 65536 0 1,71 -",
"V Decoration 27 UniformId 66560 0 1,71 - IdScope",
"V Decoration 28 SaturatedConversion 65536 0 6 -",
"V Decoration 29 Stream 65536 0 54 - LiteralInteger",
"V Decoration 30 Location 65536 0 1 - LiteralInteger",
"V Decoration 31 Component 65536 0 1 - LiteralInteger",
"V Decoration 32 Index 65536 0 1 - LiteralInteger",
"V Decoration 33 Binding 65536 0 1 - LiteralInteger",
"V Decoration 34 DescriptorSet 65536 0 1 - LiteralInteger",
"V Decoration 35 Offset 65536 0 1 - LiteralInteger",
"V Decoration 36 XfbBuffer 65536 0 53 - LiteralInteger",
"V Decoration 37 XfbStride 65536 0 53 - LiteralInteger",
"V Decoration 38 FuncParamAttr 65536 0 6 - FunctionParameterAttribute",
"V Decoration 39 FPRoundingMode 65536 0 - - FPRoundingMode",
"V Decoration 40 FPFastMathMode 65536 0 6,6029 - FPFastMathMode",
"V Decoration 41 LinkageAttributes 65536 0 5 - LiteralString LinkageType",
"V Decoration 42 NoContraction 65536 0 1 -",
"V Decoration 43 InputAttachmentIndex 65536 0 40 - LiteralInteger",
"V Decoration 44 Alignment 65536 0 6 - LiteralInteger",
"V Decoration 45 MaxByteOffset 65792 0 4 - LiteralInteger",
"V Decoration 46 AlignmentId 66048 0 6 - IdRef",
"V Decoration 47 MaxByteOffsetId 66048 0 4 - IdRef",
"V Decoration 4469 NoSignedWrap 66560 0 - SPV_KHR_no_integer_wrap_decoration",
"V Decoration 4470 NoUnsignedWrap 66560 0 - SPV_KHR_no_integer_wrap_decoration",
"V Decoration 4487 WeightTextureQCOM none 0 - SPV_QCOM_image_processing",
"V Decoration 4488 BlockMatchTextureQCOM none 0 - SPV_QCOM_image_processing",
"V Decoration 4499 BlockMatchSamplerQCOM none 0 - SPV_QCOM_image_processing2",
"V Decoration 4999 ExplicitInterpAMD none 0 - SPV_AMD_shader_explicit_vertex_parameter",
"V Decoration 5019 NodeSharesPayloadLimitsWithAMDX none 0 5067 - IdRef",
"V Decoration 5020 NodeMaxPayloadsAMDX none 0 5067 - IdRef",
"V Decoration 5078 TrackFinishWritingAMDX none 0 5067 -",
"V Decoration 5091 PayloadNodeNameAMDX none 0 5067 - LiteralString",
"V Decoration 5248 OverrideCoverageNV none 0 5249 SPV_NV_sample_mask_override_coverage",
"V Decoration 5250 PassthroughNV none 0 5251 SPV_NV_geometry_shader_passthrough",
"V Decoration 5252 ViewportRelativeNV none 0 5255 -",
"V Decoration 5256 SecondaryViewportRelativeNV none 0 5259 SPV_NV_stereo_view_rendering LiteralInteger",
"V Decoration 5271 PerPrimitiveNV none 0 5266,5283 SPV_NV_mesh_shader,SPV_EXT_mesh_shader",
"V Decoration 5271 PerPrimitiveEXT none 0 5266,5283 SPV_NV_mesh_shader,SPV_EXT_mesh_shader",
"V Decoration 5272 PerViewNV none 0 5266 SPV_NV_mesh_shader",
"V Decoration 5273 PerTaskNV none 0 5266,5283 SPV_NV_mesh_shader,SPV_EXT_mesh_shader",
"V Decoration 5285 PerVertexKHR none 0 5284,5284 SPV_NV_fragment_shader_barycentric,SPV_KHR_fragment_shader_barycentric",
"V Decoration 5285 PerVertexNV none 0 5284,5284 SPV_NV_fragment_shader_barycentric,SPV_KHR_fragment_shader_barycentric",
"V Decoration 5300 NonUniform 66816 0 5301 -",
"V Decoration 5300 NonUniformEXT 66816 0 5301 SPV_EXT_descriptor_indexing",
"V Decoration 5355 RestrictPointer 66816 0 5347 SPV_EXT_physical_storage_buffer,SPV_KHR_physical_storage_buffer",
"V Decoration 5355 RestrictPointerEXT 66816 0 5347 SPV_EXT_physical_storage_buffer",
"V Decoration 5356 AliasedPointer 66816 0 5347 SPV_EXT_physical_storage_buffer,SPV_KHR_physical_storage_buffer",
"V Decoration 5356 AliasedPointerEXT 66816 0 5347 SPV_EXT_physical_storage_buffer",
"V Decoration 5386 HitObjectShaderRecordBufferNV none 0 5383 -",
"V Decoration 5398 BindlessSamplerNV none 0 5390 -",
"V Decoration 5399 BindlessImageNV none 0 5390 -",
"V Decoration 5400 BoundSamplerNV none 0 5390 -",
"V Decoration 5401 BoundImageNV none 0 5390 -",
"V Decoration 5599 SIMTCallINTEL none 0 5617 - LiteralInteger",
"V Decoration 5602 ReferencedIndirectlyINTEL none 0 5604 SPV_INTEL_function_pointers",
"V Decoration 5607 ClobberINTEL none 0 5606 - LiteralString",
"V Decoration 5608 SideEffectsINTEL none 0 5606 -",
"V Decoration 5624 VectorComputeVariableINTEL none 0 5617 -",
"V Decoration 5625 FuncParamIOKindINTEL none 0 5617 - LiteralInteger",
"V Decoration 5626 VectorComputeFunctionINTEL none 0 5617 -",
"V Decoration 5627 StackCallINTEL none 0 5617 -",
"V Decoration 5628 GlobalVariableOffsetINTEL none 0 5617 - LiteralInteger",
"V Decoration 5634 CounterBuffer 66560 0 - - IdRef",
"V Decoration 5634 HlslCounterBufferGOOGLE none 0 - SPV_GOOGLE_hlsl_functionality1 IdRef",
"V Decoration 5635 UserSemantic 66560 0 - - LiteralString",
"V Decoration 5635 HlslSemanticGOOGLE none 0 - SPV_GOOGLE_hlsl_functionality1 LiteralString",
"V Decoration 5636 UserTypeGOOGLE none 0 - SPV_GOOGLE_user_type LiteralString",
"V Decoration 5822 FunctionRoundingModeINTEL none 0 5821 - LiteralInteger FPRoundingMode",
"V Decoration 5823 FunctionDenormModeINTEL none 0 5821 - LiteralInteger FPDenormMode",
"V Decoration 5825 RegisterINTEL none 0 5824 SPV_INTEL_fpga_memory_attributes",
"V Decoration 5826 MemoryINTEL none 0 5824 SPV_INTEL_fpga_memory_attributes LiteralString",
"V Decoration 5827 NumbanksINTEL none 0 5824 SPV_INTEL_fpga_memory_attributes LiteralInteger",
"V Decoration 5828 BankwidthINTEL none 0 5824 SPV_INTEL_fpga_memory_attributes LiteralInteger",
"V Decoration 5829 MaxPrivateCopiesINTEL none 0 5824 SPV_INTEL_fpga_memory_attributes LiteralInteger",
"V Decoration 5830 SinglepumpINTEL none 0 5824 SPV_INTEL_fpga_memory_attributes",
"V Decoration 5831 DoublepumpINTEL none 0 5824 SPV_INTEL_fpga_memory_attributes",
"V Decoration 5832 MaxReplicatesINTEL none 0 5824 SPV_INTEL_fpga_memory_attributes LiteralInteger",
"V Decoration 5833 SimpleDualPortINTEL none 0 5824 SPV_INTEL_fpga_memory_attributes",
"V Decoration 5834 MergeINTEL none 0 5824 SPV_INTEL_fpga_memory_attributes LiteralString LiteralString",
"V Decoration 5835 BankBitsINTEL none 0 5824 SPV_INTEL_fpga_memory_attributes LiteralInteger*",
"V Decoration 5836 ForcePow2DepthINTEL none 0 5824 SPV_INTEL_fpga_memory_attributes LiteralInteger",
"V Decoration 5883 StridesizeINTEL none 0 5824 - LiteralInteger",
"V Decoration 5884 WordsizeINTEL none 0 5824 - LiteralInteger",
"V Decoration 5885 TrueDualPortINTEL none 0 5824 -",
"V Decoration 5899 BurstCoalesceINTEL none 0 5898 -",
"V Decoration 5900 CacheSizeINTEL none 0 5898 - LiteralInteger",
"V Decoration 5901 DontStaticallyCoalesceINTEL none 0 5898 -",
"V Decoration 5902 PrefetchINTEL none 0 5898 - LiteralInteger",
"V Decoration 5905 StallEnableINTEL none 0 5904 -",
"V Decoration 5907 FuseLoopsInFunctionINTEL none 0 5906 -",
"V Decoration 5909 MathOpDSPModeINTEL none 0 5908 - LiteralInteger LiteralInteger",
"V Decoration 5914 AliasScopeINTEL none 0 5910 - IdRef",
"V Decoration 5915 NoAliasINTEL none 0 5910 - IdRef",
"V Decoration 5917 InitiationIntervalINTEL none 0 5916 - LiteralInteger",
"V Decoration 5918 MaxConcurrencyINTEL none 0 5916 - LiteralInteger",
"V Decoration 5919 PipelineEnableINTEL none 0 5916 - LiteralInteger",
"V Decoration 5921 BufferLocationINTEL none 0 5920 - LiteralInteger",
"V Decoration 5944 IOPipeStorageINTEL none 0 5943 - LiteralInteger",
"V Decoration 6080 FunctionFloatingPointModeINTEL none 0 5821 - LiteralInteger FPOperationMode",
"V Decoration 6085 SingleElementVectorINTEL none 0 5617 -",
"V Decoration 6087 VectorComputeCallableFunctionINTEL none 0 5617 -",
"V Decoration 6140 MediaBlockIOINTEL none 0 5617 -",
"V Decoration 6151 StallFreeINTEL none 0 6150 -",
"V Decoration 6170 FPMaxErrorDecorationINTEL none 0 6169 - LiteralFloat",
"V Decoration 6172 LatencyControlLabelINTEL none 0 6171 - LiteralInteger",
"V Decoration 6173 LatencyControlConstraintINTEL none 0 6171 - LiteralInteger LiteralInteger LiteralInteger",
"V Decoration 6175 ConduitKernelArgumentINTEL none 0 6174 -",
"V Decoration 6176 RegisterMapKernelArgumentINTEL none 0 6174 -",
"V Decoration 6177 MMHostInterfaceAddressWidthINTEL none 0 6174 - LiteralInteger",
"V Decoration 6178 MMHostInterfaceDataWidthINTEL none 0 6174 - LiteralInteger",
"V Decoration 6179 MMHostInterfaceLatencyINTEL none 0 6174 - LiteralInteger",
"V Decoration 6180 MMHostInterfaceReadWriteModeINTEL none 0 6174 - AccessQualifier",
"V Decoration 6181 MMHostInterfaceMaxBurstINTEL none 0 6174 - LiteralInteger",
"V Decoration 6182 MMHostInterfaceWaitRequestINTEL none 0 6174 - LiteralInteger",
"V Decoration 6183 StableKernelArgumentINTEL none 0 6174 -",
"V Decoration 6188 HostAccessINTEL none 0 6187 - HostAccessQualifier LiteralString",
"V Decoration 6190 InitModeINTEL none 0 6189 - InitializationModeQualifier",
"V Decoration 6191 ImplementInRegisterMapINTEL none 0 6189 - LiteralInteger",
"V Decoration 6442 CacheControlLoadINTEL none 0 6441 - LiteralInteger LoadCacheControl",
"V Decoration 6443 CacheControlStoreINTEL none 0 6441 - LiteralInteger StoreCacheControl",
"K BuiltIn ValueEnum",
"V BuiltIn 0 Position 65536 0 1 -",
"V BuiltIn 1 PointSize 65536 0 1 -",
"V BuiltIn 3 ClipDistance 65536 0 32 -",
"V BuiltIn 4 CullDistance 65536 0 33 -",
"V BuiltIn 5 VertexId 65536 0 1 -",
"V BuiltIn 6 InstanceId 65536 0 1 -",
"V BuiltIn 7 PrimitiveId 65536 0 2,3,5340,4479,5266,5283 -",
"V BuiltIn 8 InvocationId 65536 0 2,3 -",
"V BuiltIn 9 Layer 65536 0 2,69,5254,5266,5283 -",
"V BuiltIn 10 ViewportIndex 65536 0 57,70,5254,5266,5283 -",
"V BuiltIn 11 TessLevelOuter 65536 0 3 -",
"V BuiltIn 12 TessLevelInner 65536 0 3 -",
"V BuiltIn 13 TessCoord 65536 0 3 -",
"V BuiltIn 14 PatchVertices 65536 0 3 -",
"V BuiltIn 15 FragCoord 65536 0 1 -",
"V BuiltIn 16 PointCoord 65536 0 1 -",
"V BuiltIn 17 FrontFacing 65536 0 1 -",
"V BuiltIn 18 SampleId 65536 0 35 -",
"V BuiltIn 19 SamplePosition 65536 0 35 -",
"V BuiltIn 20 SampleMask 65536 0 1 -",
"V BuiltIn 22 FragDepth 65536 0 1 -",
"V BuiltIn 23 HelperInvocation 65536 0 1 -",
"V BuiltIn 24 NumWorkgroups 65536 0 - -",
"V BuiltIn 25 WorkgroupSize 65536 0 - -",
"V BuiltIn 26 WorkgroupId 65536 0 - -",
"V BuiltIn 27 LocalInvocationId 65536 0 - -",
"V BuiltIn 28 GlobalInvocationId 65536 0 - -",
"V BuiltIn 29 LocalInvocationIndex 65536 0 - -",
"V BuiltIn 30 WorkDim 65536 0 6 -",
"V BuiltIn 31 GlobalSize 65536 0 6 -",
"V BuiltIn 32 EnqueuedWorkgroupSize 65536 0 6 -",
"V BuiltIn 33 GlobalOffset 65536 0 6 -",
"V BuiltIn 34 GlobalLinearId 65536 0 6 -",
"V BuiltIn 36 SubgroupSize 65536 0 6,61,4423 -",
"V BuiltIn 37 SubgroupMaxSize 65536 0 6 -",
"V BuiltIn 38 NumSubgroups 65536 0 6,61 -",
"V BuiltIn 39 NumEnqueuedSubgroups 65536 0 6 -",
"V BuiltIn 40 SubgroupId 65536 0 6,61 -",
"V BuiltIn 41 SubgroupLocalInvocationId 65536 0 6,61,4423 -",
"V BuiltIn 42 VertexIndex 65536 0 1 -",
"V BuiltIn 43 InstanceIndex 65536 0 1 -",
"V BuiltIn 4160 CoreIDARM 65536 0 4165 -",
"V BuiltIn 4161 CoreCountARM 65536 0 4165 -",
"V BuiltIn 4162 CoreMaxIDARM 65536 0 4165 -",
"V BuiltIn 4163 WarpIDARM 65536 0 4165 -",
"V BuiltIn 4164 WarpMaxIDARM 65536 0 4165 -",
"V BuiltIn 4416 SubgroupEqMask 66304 0 4423,64 -",
"V BuiltIn 4416 SubgroupEqMaskKHR 66304 0 4423,64 SPV_KHR_shader_ballot",
"V BuiltIn 4417 SubgroupGeMask 66304 0 4423,64 -",
"V BuiltIn 4417 SubgroupGeMaskKHR 66304 0 4423,64 SPV_KHR_shader_ballot",
"V BuiltIn 4418 SubgroupGtMask 66304 0 4423,64 -",
"V BuiltIn 4418 SubgroupGtMaskKHR 66304 0 4423,64 SPV_KHR_shader_ballot",
"V BuiltIn 4419 SubgroupLeMask 66304 0 4423,64 -",
"V BuiltIn 4419 SubgroupLeMaskKHR 66304 0 4423,64 SPV_KHR_shader_ballot",
"V BuiltIn 4420 SubgroupLtMask 66304 0 4423,64 -",
"V BuiltIn 4420 SubgroupLtMaskKHR 66304 0 4423,64 SPV_KHR_shader_ballot",
"V BuiltIn 4424 BaseVertex 66304 0 4427 SPV_KHR_shader_draw_parameters",
"V BuiltIn 4425 BaseInstance 66304 0 4427 SPV_KHR_shader_draw_parameters",
"V BuiltIn 4426 DrawIndex 66304 0 4427,5266,5283 SPV_KHR_shader_draw_parameters,SPV_NV_mesh_shader,SPV_EXT_mesh_shader",
"V BuiltIn 4432 PrimitiveShadingRateKHR none 0 4422 SPV_KHR_fragment_shading_rate",
"V BuiltIn 4438 DeviceIndex 66304 0 4437 SPV_KHR_device_group",
"V BuiltIn 4440 ViewIndex 66304 0 4439 SPV_KHR_multiview",
"V BuiltIn 4444 ShadingRateKHR none 0 4422 SPV_KHR_fragment_shading_rate",
"V BuiltIn 4992 BaryCoordNoPerspAMD none 0 - SPV_AMD_shader_explicit_vertex_parameter",
"V BuiltIn 4993 BaryCoordNoPerspCentroidAMD none 0 - SPV_AMD_shader_explicit_vertex_parameter",
"V BuiltIn 4994 BaryCoordNoPerspSampleAMD none 0 - SPV_AMD_shader_explicit_vertex_parameter",
"V BuiltIn 4995 BaryCoordSmoothAMD none 0 - SPV_AMD_shader_explicit_vertex_parameter",
"V BuiltIn 4996 BaryCoordSmoothCentroidAMD none 0 - SPV_AMD_shader_explicit_vertex_parameter",
"V BuiltIn 4997 BaryCoordSmoothSampleAMD none 0 - SPV_AMD_shader_explicit_vertex_parameter",
"V BuiltIn 4998 BaryCoordPullModelAMD none 0 - SPV_AMD_shader_explicit_vertex_parameter",
"V BuiltIn 5014 FragStencilRefEXT none 0 5013 SPV_EXT_shader_stencil_export",
"V BuiltIn 5021 CoalescedInputCountAMDX none 0 5067 -",
"V BuiltIn 5073 ShaderIndexAMDX none 0 5067 -",
"V BuiltIn 5253 ViewportMaskNV none 0 5255,5266 SPV_NV_viewport_array2,SPV_NV_mesh_shader",
"V BuiltIn 5257 SecondaryPositionNV none 0 5259 SPV_NV_stereo_view_rendering",
"V BuiltIn 5258 SecondaryViewportMaskNV none 0 5259 SPV_NV_stereo_view_rendering",
"V BuiltIn 5261 PositionPerViewNV none 0 5260,5266 SPV_NVX_multiview_per_view_attributes,SPV_NV_mesh_shader",
"V BuiltIn 5262 ViewportMaskPerViewNV none 0 5260,5266 SPV_NVX_multiview_per_view_attributes,SPV_NV_mesh_shader",
"V BuiltIn 5264 FullyCoveredEXT none 0 5265 SPV_EXT_fragment_fully_covered",
"V BuiltIn 5274 TaskCountNV none 0 5266 SPV_NV_mesh_shader",
"V BuiltIn 5275 PrimitiveCountNV none 0 5266 SPV_NV_mesh_shader",
"V BuiltIn 5276 PrimitiveIndicesNV none 0 5266 SPV_NV_mesh_shader",
"V BuiltIn 5277 ClipDistancePerViewNV none 0 5266 SPV_NV_mesh_shader",
"V BuiltIn 5278 CullDistancePerViewNV none 0 5266 SPV_NV_mesh_shader",
"V BuiltIn 5279 LayerPerViewNV none 0 5266 SPV_NV_mesh_shader",
"V BuiltIn 5280 MeshViewCountNV none 0 5266 SPV_NV_mesh_shader",
"V BuiltIn 5281 MeshViewIndicesNV none 0 5266 SPV_NV_mesh_shader",
"V BuiltIn 5286 BaryCoordKHR none 0 5284,5284 SPV_NV_fragment_shader_barycentric,SPV_KHR_fragment_shader_barycentric",
"V BuiltIn 5286 BaryCoordNV none 0 5284,5284 SPV_NV_fragment_shader_barycentric,SPV_KHR_fragment_shader_barycentric",
"V BuiltIn 5287 BaryCoordNoPerspKHR none 0 5284,5284 SPV_NV_fragment_shader_barycentric,SPV_KHR_fragment_shader_barycentric",
"V BuiltIn 5287 BaryCoordNoPerspNV none 0 5284,5284 SPV_NV_fragment_shader_barycentric,SPV_KHR_fragment_shader_barycentric",
"V BuiltIn 5292 FragSizeEXT none 0 5291,5291 SPV_EXT_fragment_invocation_density,SPV_NV_shading_rate",
"V BuiltIn 5292 FragmentSizeNV none 0 5291,5291 SPV_NV_shading_rate,SPV_EXT_fragment_invocation_density",
"V BuiltIn 5293 FragInvocationCountEXT none 0 5291,5291 SPV_EXT_fragment_invocation_density,SPV_NV_shading_rate",
"V BuiltIn 5293 InvocationsPerPixelNV none 0 5291,5291 SPV_NV_shading_rate,SPV_EXT_fragment_invocation_density",
"V BuiltIn 5294 PrimitivePointIndicesEXT none 0 5283 SPV_EXT_mesh_shader",
"V BuiltIn 5295 PrimitiveLineIndicesEXT none 0 5283 SPV_EXT_mesh_shader",
"V BuiltIn 5296 PrimitiveTriangleIndicesEXT none 0 5283 SPV_EXT_mesh_shader",
"V BuiltIn 5299 CullPrimitiveEXT none 0 5283 SPV_EXT_mesh_shader",
"V BuiltIn 5319 LaunchIdNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5319 LaunchIdKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5320 LaunchSizeNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5320 LaunchSizeKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5321 WorldRayOriginNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5321 WorldRayOriginKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5322 WorldRayDirectionNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5322 WorldRayDirectionKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5323 ObjectRayOriginNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5323 ObjectRayOriginKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5324 ObjectRayDirectionNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5324 ObjectRayDirectionKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5325 RayTminNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5325 RayTminKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5326 RayTmaxNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5326 RayTmaxKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5327 InstanceCustomIndexNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5327 InstanceCustomIndexKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5330 ObjectToWorldNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5330 ObjectToWorldKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5331 WorldToObjectNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5331 WorldToObjectKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5332 HitTNV none 0 5340 SPV_NV_ray_tracing",
"V BuiltIn 5333 HitKindNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5333 HitKindKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5334 CurrentRayTimeNV none 0 5341 SPV_NV_ray_tracing_motion_blur",
"V BuiltIn 5335 HitTriangleVertexPositionsKHR none 0 5336 -",
"V BuiltIn 5337 HitMicroTriangleVertexPositionsNV none 0 5409 -",
"V BuiltIn 5344 HitMicroTriangleVertexBarycentricsNV none 0 5409 -",
"V BuiltIn 5351 IncomingRayFlagsNV none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5351 IncomingRayFlagsKHR none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing",
"V BuiltIn 5352 RayGeometryIndexKHR none 0 4479 SPV_KHR_ray_tracing",
"V BuiltIn 5374 WarpsPerSMNV none 0 5373 SPV_NV_shader_sm_builtins",
"V BuiltIn 5375 SMCountNV none 0 5373 SPV_NV_shader_sm_builtins",
"V BuiltIn 5376 WarpIDNV none 0 5373 SPV_NV_shader_sm_builtins",
"V BuiltIn 5377 SMIDNV none 0 5373 SPV_NV_shader_sm_builtins",
"V BuiltIn 5405 HitKindFrontFacingMicroTriangleNV none 0 5409 -",
"V BuiltIn 5406 HitKindBackFacingMicroTriangleNV none 0 5409 -",
"V BuiltIn 6021 CullMaskKHR none 0 6020 SPV_KHR_ray_cull_mask",
"K Scope ValueEnum",
"V Scope 0 CrossDevice 65536 0 - -",
"V Scope 1 Device 65536 0 - -",
"V Scope 2 Workgroup 65536 0 - -",
"V Scope 3 Subgroup 65536 0 - -",
"V Scope 4 Invocation 65536 0 - -",
"V Scope 5 QueueFamily 66816 0 5345 -",
"V Scope 5 QueueFamilyKHR 66816 0 5345 -",
"V Scope 6 ShaderCallKHR none 0 4479 -",
"K GroupOperation ValueEnum",
"V GroupOperation 0 Reduce 65536 0 6,63,64 -",
"V GroupOperation 1 InclusiveScan 65536 0 6,63,64 -",
"V GroupOperation 2 ExclusiveScan 65536 0 6,63,64 -",
"V GroupOperation 3 ClusteredReduce 66304 0 67 -",
"V GroupOperation 6 PartitionedReduceNV none 0 5297 SPV_NV_shader_subgroup_partitioned",
"V GroupOperation 7 PartitionedInclusiveScanNV none 0 5297 SPV_NV_shader_subgroup_partitioned",
"V GroupOperation 8 PartitionedExclusiveScanNV none 0 5297 SPV_NV_shader_subgroup_partitioned",
"K KernelEnqueueFlags ValueEnum",
"V KernelEnqueueFlags 0 NoWait 65536 0 6 -",
"V KernelEnqueueFlags 1 WaitKernel 65536 0 6 -",
"V KernelEnqueueFlags 2 WaitWorkGroup 65536 0 6 -",
"K Capability ValueEnum",
"V Capability 0 Matrix 65536 0 - -",
"V Capability 1 Shader 65536 0 0 -",
"V Capability 2 Geometry 65536 0 1 -",
"V Capability 3 Tessellation 65536 0 1 -",
"V Capability 4 Addresses 65536 0 - -",
"V Capability 5 Linkage 65536 0 - -",
"V Capability 6 Kernel 65536 0 - -",
"V Capability 7 Vector16 65536 0 6 -",
"V Capability 8 Float16Buffer 65536 0 6 -",
"V Capability 9 Float16 65536 0 - -",
"V Capability 10 Float64 65536 0 - -",
"V Capability 11 Int64 65536 0 - -",
"V Capability 12 Int64Atomics 65536 0 11 -",
"V Capability 13 ImageBasic 65536 0 6 -",
"V Capability 14 ImageReadWrite 65536 0 13 -",
"V Capability 15 ImageMipmap 65536 0 13 -",
"V Capability 17 Pipes 65536 0 6 -",
"V Capability 18 Groups 65536 0 - SPV_AMD_shader_ballot",
"V Capability 19 DeviceEnqueue 65536 0 6 -",
"V Capability 20 LiteralSampler 65536 0 6 -",
"V Capability 21 AtomicStorage 65536 0 1 -",
"V Capability 22 Int16 65536 0 - -",
"V Capability 23 TessellationPointSize 65536 0 3 -",
"V Capability 24 GeometryPointSize 65536 0 2 -",
"V Capability 25 ImageGatherExtended 65536 0 1 -",
"V Capability 27 StorageImageMultisample 65536 0 1 -",
"V Capability 28 UniformBufferArrayDynamicIndexing 65536 0 1 -",
"V Capability 29 SampledImageArrayDynamicIndexing 65536 0 1 -",
"V Capability 30 StorageBufferArrayDynamicIndexing 65536 0 1 -",
"V Capability 31 StorageImageArrayDynamicIndexing 65536 0 1 -",
"V Capability 32 ClipDistance 65536 0 1 -",
"V Capability 33 CullDistance 65536 0 1 -",
"V Capability 34 ImageCubeArray 65536 0 45 -",
"V Capability 35 SampleRateShading 65536 0 1 -",
"V Capability 36 ImageRect 65536 0 37 -",
"V Capability 37 SampledRect 65536 0 1 -",
"V Capability 38 GenericPointer 65536 0 4 -",
"V Capability 39 Int8 65536 0 - -",
"V Capability 40 InputAttachment 65536 0 1 -",
"V Capability 41 SparseResidency 65536 0 1 -",
"V Capability 42 MinLod 65536 0 1 -",
"V Capability 43 Sampled1D 65536 0 - -",
"V Capability 44 Image1D 65536 0 43 -",
"V Capability 45 SampledCubeArray 65536 0 1 -",
"V Capability 46 SampledBuffer 65536 0 - -",
"V Capability 47 ImageBuffer 65536 0 46 -",
"V Capability 48 ImageMSArray 65536 0 1 -",
"V Capability 49 StorageImageExtendedFormats 65536 0 1 -",
"V Capability 50 ImageQuery 65536 0 1 -",
"V Capability 51 DerivativeControl 65536 0 1 -",
"V Capability 52 InterpolationFunction 65536 0 1 -",
"V Capability 53 TransformFeedback 65536 0 1 -",
"V Capability 54 GeometryStreams 65536 0 2 -",
"V Capability 55 StorageImageReadWithoutFormat 65536 0 1 -",
"V Capability 56 StorageImageWriteWithoutFormat 65536 0 1 -",
"V Capability 57 MultiViewport 65536 0 2 -",
"V Capability 58 SubgroupDispatch 65792 0 19 -",
"V Capability 59 NamedBarrier 65792 0 6 -",
"V Capability 60 PipeStorage 65792 0 17 -",
"V Capability 61 GroupNonUniform 66304 0 - -",
"V Capability 62 GroupNonUniformVote 66304 0 61 -",
"V Capability 63 GroupNonUniformArithmetic 66304 0 61 -",
"V Capability 64 GroupNonUniformBallot 66304 0 61 -",
"V Capability 65 GroupNonUniformShuffle 66304 0 61 -",
"V Capability 66 GroupNonUniformShuffleRelative 66304 0 61 -",
"V Capability 67 GroupNonUniformClustered 66304 0 61 -",
"V Capability 68 GroupNonUniformQuad 66304 0 61 -",
"V Capability 69 ShaderLayer 66816 0 - -",
"V Capability 70 ShaderViewportIndex 66816 0 - -",
"V Capability 71 UniformDecoration 67072 0 - -",
"V Capability 4165 CoreBuiltinsARM none 0 - SPV_ARM_core_builtins",
"V Capability 4166 TileImageColorReadAccessEXT none 0 - SPV_EXT_shader_tile_image",
"V Capability 4167 TileImageDepthReadAccessEXT none 0 - SPV_EXT_shader_tile_image",
"V Capability 4168 TileImageStencilReadAccessEXT none 0 - SPV_EXT_shader_tile_image",
"V Capability 4422 FragmentShadingRateKHR none 0 1 SPV_KHR_fragment_shading_rate",
"V Capability 4423 SubgroupBallotKHR none 0 - SPV_KHR_shader_ballot",
"V Capability 4427 DrawParameters 66304 0 1 SPV_KHR_shader_draw_parameters",
"V Capability 4428 WorkgroupMemoryExplicitLayoutKHR none 0 1 SPV_KHR_workgroup_memory_explicit_layout",
"V Capability 4429 WorkgroupMemoryExplicitLayout8BitAccessKHR none 0 4428 SPV_KHR_workgroup_memory_explicit_layout",
"V Capability 4430 WorkgroupMemoryExplicitLayout16BitAccessKHR none 0 4428 SPV_KHR_workgroup_memory_explicit_layout",
"V Capability 4431 SubgroupVoteKHR none 0 - SPV_KHR_subgroup_vote",
"V Capability 4433 StorageBuffer16BitAccess 66304 0 - SPV_KHR_16bit_storage",
"V Capability 4433 StorageUniformBufferBlock16 66304 0 - SPV_KHR_16bit_storage",
"V Capability 4434 UniformAndStorageBuffer16BitAccess 66304 0 4433,4433 SPV_KHR_16bit_storage",
"V Capability 4434 StorageUniform16 66304 0 4433,4433 SPV_KHR_16bit_storage",
"V Capability 4435 StoragePushConstant16 66304 0 - SPV_KHR_16bit_storage",
"V Capability 4436 StorageInputOutput16 66304 0 - SPV_KHR_16bit_storage",
"V Capability 4437 DeviceGroup 66304 0 - SPV_KHR_device_group",
"V Capability 4439 MultiView 66304 0 1 SPV_KHR_multiview",
"V Capability 4441 VariablePointersStorageBuffer 66304 0 1 SPV_KHR_variable_pointers",
"V Capability 4442 VariablePointers 66304 0 4441 SPV_KHR_variable_pointers",
"V Capability 4445 AtomicStorageOps none 0 - SPV_KHR_shader_atomic_counter_ops",
"V Capability 4447 SampleMaskPostDepthCoverage none 0 - SPV_KHR_post_depth_coverage",
"V Capability 4448 StorageBuffer8BitAccess 66816 0 - SPV_KHR_8bit_storage",
"V Capability 4449 UniformAndStorageBuffer8BitAccess 66816 0 4448 SPV_KHR_8bit_storage",
"V Capability 4450 StoragePushConstant8 66816 0 - SPV_KHR_8bit_storage",
"V Capability 4464 DenormPreserve 66560 0 - SPV_KHR_float_controls",
"V Capability 4465 DenormFlushToZero 66560 0 - SPV_KHR_float_controls",
"V Capability 4466 SignedZeroInfNanPreserve 66560 0 - SPV_KHR_float_controls",
"V Capability 4467 RoundingModeRTE 66560 0 - SPV_KHR_float_controls",
"V Capability 4468 RoundingModeRTZ 66560 0 - SPV_KHR_float_controls",
"V Capability 4471 RayQueryProvisionalKHR none 0 1 SPV_KHR_ray_query",
"V Capability 4472 RayQueryKHR none 0 1 SPV_KHR_ray_query",
"V Capability 4478 RayTraversalPrimitiveCullingKHR none 0 4472,4479 SPV_KHR_ray_query,SPV_KHR_ray_tracing",
"V Capability 4479 RayTracingKHR none 0 1 SPV_KHR_ray_tracing",
"V Capability 4484 TextureSampleWeightedQCOM none 0 - SPV_QCOM_image_processing",
"V Capability 4485 TextureBoxFilterQCOM none 0 - SPV_QCOM_image_processing",
"V Capability 4486 TextureBlockMatchQCOM none 0 - SPV_QCOM_image_processing",
"V Capability 4498 TextureBlockMatch2QCOM none 0 - SPV_QCOM_image_processing2",
"V Capability 5008 Float16ImageAMD none 0 1 SPV_AMD_gpu_shader_half_float_fetch",
"V Capability 5009 ImageGatherBiasLodAMD none 0 1 SPV_AMD_texture_gather_bias_lod",
"V Capability 5010 FragmentMaskAMD none 0 1 SPV_AMD_shader_fragment_mask",
"V Capability 5013 StencilExportEXT none 0 1 SPV_EXT_shader_stencil_export",
"V Capability 5015 ImageReadWriteLodAMD none 0 1 SPV_AMD_shader_image_load_store_lod",
"V Capability 5016 Int64ImageEXT none 0 1 SPV_EXT_shader_image_int64",
"V Capability 5055 ShaderClockKHR none 0 - SPV_KHR_shader_clock",
"V Capability 5067 ShaderEnqueueAMDX none 0 1 SPV_AMDX_shader_enqueue",
"V Capability 5087 QuadControlKHR none 0 - SPV_KHR_quad_control",
"V Capability 5249 SampleMaskOverrideCoverageNV none 0 35 SPV_NV_sample_mask_override_coverage",
"V Capability 5251 GeometryShaderPassthroughNV none 0 2 SPV_NV_geometry_shader_passthrough",
"V Capability 5254 ShaderViewportIndexLayerEXT none 0 57 SPV_EXT_shader_viewport_index_layer",
"V Capability 5254 ShaderViewportIndexLayerNV none 0 57 SPV_NV_viewport_array2",
"V Capability 5255 ShaderViewportMaskNV none 0 5254 SPV_NV_viewport_array2",
"V Capability 5259 ShaderStereoViewNV none 0 5255 SPV_NV_stereo_view_rendering",
"V Capability 5260 PerViewAttributesNV none 0 4439 SPV_NVX_multiview_per_view_attributes",
"V Capability 5265 FragmentFullyCoveredEXT none 0 1 SPV_EXT_fragment_fully_covered",
"V Capability 5266 MeshShadingNV none 0 1 SPV_NV_mesh_shader",
"V Capability 5282 ImageFootprintNV none 0 - SPV_NV_shader_image_footprint",
"V Capability 5283 MeshShadingEXT none 0 1 SPV_EXT_mesh_shader",
"V Capability 5284 FragmentBarycentricKHR none 0 - SPV_NV_fragment_shader_barycentric,SPV_KHR_fragment_shader_barycentric",
"V Capability 5284 FragmentBarycentricNV none 0 - SPV_NV_fragment_shader_barycentric,SPV_KHR_fragment_shader_barycentric",
"V Capability 5288 ComputeDerivativeGroupQuadsNV none 0 - SPV_NV_compute_shader_derivatives",
"V Capability 5291 FragmentDensityEXT none 0 1 SPV_EXT_fragment_invocation_density,SPV_NV_shading_rate",
"V Capability 5291 ShadingRateNV none 0 1 SPV_NV_shading_rate,SPV_EXT_fragment_invocation_density",
"V Capability 5297 GroupNonUniformPartitionedNV none 0 - SPV_NV_shader_subgroup_partitioned",
"V Capability 5301 ShaderNonUniform 66816 0 1 -",
"V Capability 5301 ShaderNonUniformEXT 66816 0 1 SPV_EXT_descriptor_indexing",
"V Capability 5302 RuntimeDescriptorArray 66816 0 1 -",
"V Capability 5302 RuntimeDescriptorArrayEXT 66816 0 1 SPV_EXT_descriptor_indexing",
"V Capability 5303 InputAttachmentArrayDynamicIndexing 66816 0 40 -",
"V Capability 5303 InputAttachmentArrayDynamicIndexingEXT 66816 0 40 SPV_EXT_descriptor_indexing",
"V Capability 5304 UniformTexelBufferArrayDynamicIndexing 66816 0 46 -",
"V Capability 5304 UniformTexelBufferArrayDynamicIndexingEXT 66816 0 46 SPV_EXT_descriptor_indexing",
"V Capability 5305 StorageTexelBufferArrayDynamicIndexing 66816 0 47 -",
"V Capability 5305 StorageTexelBufferArrayDynamicIndexingEXT 66816 0 47 SPV_EXT_descriptor_indexing",
"V Capability 5306 UniformBufferArrayNonUniformIndexing 66816 0 5301 -",
"V Capability 5306 UniformBufferArrayNonUniformIndexingEXT 66816 0 5301 SPV_EXT_descriptor_indexing",
"V Capability 5307 SampledImageArrayNonUniformIndexing 66816 0 5301 -",
"V Capability 5307 SampledImageArrayNonUniformIndexingEXT 66816 0 5301 SPV_EXT_descriptor_indexing",
"V Capability 5308 StorageBufferArrayNonUniformIndexing 66816 0 5301 -",
"V Capability 5308 StorageBufferArrayNonUniformIndexingEXT 66816 0 5301 SPV_EXT_descriptor_indexing",
"V Capability 5309 StorageImageArrayNonUniformIndexing 66816 0 5301 -",
"V Capability 5309 StorageImageArrayNonUniformIndexingEXT 66816 0 5301 SPV_EXT_descriptor_indexing",
"V Capability 5310 InputAttachmentArrayNonUniformIndexing 66816 0 40,5301 -",
"V Capability 5310 InputAttachmentArrayNonUniformIndexingEXT 66816 0 40,5301 SPV_EXT_descriptor_indexing",
"V Capability 5311 UniformTexelBufferArrayNonUniformIndexing 66816 0 46,5301 -",
"V Capability 5311 UniformTexelBufferArrayNonUniformIndexingEXT 66816 0 46,5301 SPV_EXT_descriptor_indexing",
"V Capability 5312 StorageTexelBufferArrayNonUniformIndexing 66816 0 47,5301 -",
"V Capability 5312 StorageTexelBufferArrayNonUniformIndexingEXT 66816 0 47,5301 SPV_EXT_descriptor_indexing",
"V Capability 5336 RayTracingPositionFetchKHR none 0 1 SPV_KHR_ray_tracing_position_fetch",
"V Capability 5340 RayTracingNV none 0 1 SPV_NV_ray_tracing",
"V Capability 5341 RayTracingMotionBlurNV none 0 1 SPV_NV_ray_tracing_motion_blur",
"V Capability 5345 VulkanMemoryModel 66816 0 - -",
"V Capability 5345 VulkanMemoryModelKHR 66816 0 - SPV_KHR_vulkan_memory_model",
"V Capability 5346 VulkanMemoryModelDeviceScope 66816 0 - -",
"V Capability 5346 VulkanMemoryModelDeviceScopeKHR 66816 0 - SPV_KHR_vulkan_memory_model",
"V Capability 5347 PhysicalStorageBufferAddresses 66816 0 1 SPV_EXT_physical_storage_buffer,SPV_KHR_physical_storage_buffer",
"V Capability 5347 PhysicalStorageBufferAddressesEXT 66816 0 1 SPV_EXT_physical_storage_buffer",
"V Capability 5350 ComputeDerivativeGroupLinearNV none 0 - SPV_NV_compute_shader_derivatives",
"V Capability 5353 RayTracingProvisionalKHR none 0 1 SPV_KHR_ray_tracing",
"V Capability 5357 CooperativeMatrixNV none 0 1 SPV_NV_cooperative_matrix",
"V Capability 5363 FragmentShaderSampleInterlockEXT none 0 1 SPV_EXT_fragment_shader_interlock",
"V Capability 5372 FragmentShaderShadingRateInterlockEXT none 0 1 SPV_EXT_fragment_shader_interlock",
"V Capability 5373 ShaderSMBuiltinsNV none 0 1 SPV_NV_shader_sm_builtins",
"V Capability 5378 FragmentShaderPixelInterlockEXT none 0 1 SPV_EXT_fragment_shader_interlock",
"V Capability 5379 DemoteToHelperInvocation 67072 0 1 -",
"V Capability 5379 DemoteToHelperInvocationEXT 67072 0 1 SPV_EXT_demote_to_helper_invocation",
"V Capability 5380 DisplacementMicromapNV none 0 1 SPV_NV_displacement_micromap",
"V Capability 5381 RayTracingOpacityMicromapEXT none 0 4472,4479 SPV_EXT_opacity_micromap",
"V Capability 5383 ShaderInvocationReorderNV none 0 4479 SPV_NV_shader_invocation_reorder",
"V Capability 5390 BindlessTextureNV none 0 - SPV_NV_bindless_texture",
"V Capability 5391 RayQueryPositionFetchKHR none 0 1 SPV_KHR_ray_tracing_position_fetch",
"V Capability 5404 AtomicFloat16VectorNV none 0 - SPV_NV_shader_atomic_fp16_vector",
"V Capability 5409 RayTracingDisplacementMicromapNV none 0 4479 SPV_NV_displacement_micromap",
"V Capability 5568 SubgroupShuffleINTEL none 0 - SPV_INTEL_subgroups",
"V Capability 5569 SubgroupBufferBlockIOINTEL none 0 - SPV_INTEL_subgroups",
"V Capability 5570 SubgroupImageBlockIOINTEL none 0 - SPV_INTEL_subgroups",
"V Capability 5579 SubgroupImageMediaBlockIOINTEL none 0 - SPV_INTEL_media_block_io",
"V Capability 5582 RoundToInfinityINTEL none 0 - SPV_INTEL_float_controls2",
"V Capability 5583 FloatingPointModeINTEL none 0 - SPV_INTEL_float_controls2",
"V Capability 5584 IntegerFunctions2INTEL none 0 1 SPV_INTEL_shader_integer_functions2",
"V Capability 5603 FunctionPointersINTEL none 0 - SPV_INTEL_function_pointers",
"V Capability 5604 IndirectReferencesINTEL none 0 - SPV_INTEL_function_pointers",
"V Capability 5606 AsmINTEL none 0 - SPV_INTEL_inline_assembly",
"V Capability 5612 AtomicFloat32MinMaxEXT none 0 - SPV_EXT_shader_atomic_float_min_max",
"V Capability 5613 AtomicFloat64MinMaxEXT none 0 - SPV_EXT_shader_atomic_float_min_max",
"V Capability 5616 AtomicFloat16MinMaxEXT none 0 - SPV_EXT_shader_atomic_float_min_max",
"V Capability 5617 VectorComputeINTEL none 0 5619 SPV_INTEL_vector_compute",
"V Capability 5619 VectorAnyINTEL none 0 - SPV_INTEL_vector_compute",
"V Capability 5629 ExpectAssumeKHR none 0 - SPV_KHR_expect_assume",
"V Capability 5696 SubgroupAvcMotionEstimationINTEL none 0 - SPV_INTEL_device_side_avc_motion_estimation",
"V Capability 5697 SubgroupAvcMotionEstimationIntraINTEL none 0 - SPV_INTEL_device_side_avc_motion_estimation",
"V Capability 5698 SubgroupAvcMotionEstimationChromaINTEL none 0 - SPV_INTEL_device_side_avc_motion_estimation",
"V Capability 5817 VariableLengthArrayINTEL none 0 - SPV_INTEL_variable_length_array",
"V Capability 5821 FunctionFloatControlINTEL none 0 - SPV_INTEL_float_controls2",
"V Capability 5824 FPGAMemoryAttributesINTEL none 0 - SPV_INTEL_fpga_memory_attributes",
"V Capability 5837 FPFastMathModeINTEL none 0 6 SPV_INTEL_fp_fast_math_mode",
"V Capability 5844 ArbitraryPrecisionIntegersINTEL none 0 - SPV_INTEL_arbitrary_precision_integers",
"V Capability 5845 ArbitraryPrecisionFloatingPointINTEL none 0 - SPV_INTEL_arbitrary_precision_floating_point",
"V Capability 5886 UnstructuredLoopControlsINTEL none 0 - SPV_INTEL_unstructured_loop_controls",
"V Capability 5888 FPGALoopControlsINTEL none 0 - SPV_INTEL_fpga_loop_controls",
"V Capability 5892 KernelAttributesINTEL none 0 - SPV_INTEL_kernel_attributes",
"V Capability 5897 FPGAKernelAttributesINTEL none 0 - SPV_INTEL_kernel_attributes",
"V Capability 5898 FPGAMemoryAccessesINTEL none 0 - SPV_INTEL_fpga_memory_accesses",
"V Capability 5904 FPGAClusterAttributesINTEL none 0 - SPV_INTEL_fpga_cluster_attributes",
"V Capability 5906 LoopFuseINTEL none 0 - SPV_INTEL_loop_fuse",
"V Capability 5908 FPGADSPControlINTEL none 0 - SPV_INTEL_fpga_dsp_control",
"V Capability 5910 MemoryAccessAliasingINTEL none 0 - SPV_INTEL_memory_access_aliasing",
"V Capability 5916 FPGAInvocationPipeliningAttributesINTEL none 0 - SPV_INTEL_fpga_invocation_pipelining_attributes",
"V Capability 5920 FPGABufferLocationINTEL none 0 - SPV_INTEL_fpga_buffer_location",
"V Capability 5922 ArbitraryPrecisionFixedPointINTEL none 0 - SPV_INTEL_arbitrary_precision_fixed_point",
"V Capability 5935 USMStorageClassesINTEL none 0 - SPV_INTEL_usm_storage_classes",
"V Capability 5939 RuntimeAlignedAttributeINTEL none 0 - SPV_INTEL_runtime_aligned",
"V Capability 5943 IOPipesINTEL none 0 - SPV_INTEL_io_pipes",
"V Capability 5945 BlockingPipesINTEL none 0 - SPV_INTEL_blocking_pipes",
"V Capability 5948 FPGARegINTEL none 0 - SPV_INTEL_fpga_reg",
"V Capability 6016 DotProductInputAll 67072 0 - -",
"V Capability 6016 DotProductInputAllKHR 67072 0 - SPV_KHR_integer_dot_product",
"V Capability 6017 DotProductInput4x8Bit 67072 0 39 -",
"V Capability 6017 DotProductInput4x8BitKHR 67072 0 39 SPV_KHR_integer_dot_product",
"V Capability 6018 DotProductInput4x8BitPacked 67072 0 - -",
"V Capability 6018 DotProductInput4x8BitPackedKHR 67072 0 - SPV_KHR_integer_dot_product",
"V Capability 6019 DotProduct 67072 0 - -",
"V Capability 6019 DotProductKHR 67072 0 - SPV_KHR_integer_dot_product",
"V Capability 6020 RayCullMaskKHR none 0 - SPV_KHR_ray_cull_mask",
"V Capability 6022 CooperativeMatrixKHR none 0 - SPV_KHR_cooperative_matrix",
"V Capability 6025 BitInstructions none 0 - SPV_KHR_bit_instructions",
"V Capability 6026 GroupNonUniformRotateKHR none 0 61 SPV_KHR_subgroup_rotate",
"V Capability 6029 FloatControls2 none 0 - SPV_KHR_float_controls2",
"V Capability 6033 AtomicFloat32AddEXT none 0 - SPV_EXT_shader_atomic_float_add",
"V Capability 6034 AtomicFloat64AddEXT none 0 - SPV_EXT_shader_atomic_float_add",
"V Capability 6089 LongCompositesINTEL none 0 - SPV_INTEL_long_composites",
"V Capability 6094 OptNoneINTEL none 0 - SPV_INTEL_optnone",
"V Capability 6095 AtomicFloat16AddEXT none 0 - SPV_EXT_shader_atomic_float16_add",
"V Capability 6114 DebugInfoModuleINTEL none 0 - SPV_INTEL_debug_module",
"V Capability 6115 BFloat16ConversionINTEL none 0 - SPV_INTEL_bfloat16_conversion",
"V Capability 6141 SplitBarrierINTEL none 0 - SPV_INTEL_split_barrier",
"V Capability 6150 FPGAClusterAttributesV2INTEL none 0 5904 SPV_INTEL_fpga_cluster_attributes",
"V Capability 6161 FPGAKernelAttributesv2INTEL none 0 5897 SPV_INTEL_kernel_attributes",
"V Capability 6169 FPMaxErrorINTEL none 0 - SPV_INTEL_fp_max_error",
"V Capability 6171 FPGALatencyControlINTEL none 0 - SPV_INTEL_fpga_latency_control",
"V Capability 6174 FPGAArgumentInterfacesINTEL none 0 - SPV_INTEL_fpga_argument_interfaces",
"V Capability 6187 GlobalVariableHostAccessINTEL none 0 - SPV_INTEL_global_variable_host_access",
"V Capability 6189 GlobalVariableFPGADecorationsINTEL none 0 - SPV_INTEL_global_variable_fpga_decorations",
"V Capability 6400 GroupUniformArithmeticKHR none 0 - SPV_KHR_uniform_group_instructions",
"V Capability 6427 MaskedGatherScatterINTEL none 0 - SPV_INTEL_masked_gather_scatter",
"V Capability 6441 CacheControlsINTEL none 0 - SPV_INTEL_cache_controls",
"V Capability 6460 RegisterLimitsINTEL none 0 - SPV_INTEL_maximum_registers",
"K RayQueryIntersection ValueEnum",
"V RayQueryIntersection 0 RayQueryCandidateIntersectionKHR none 0 4472 -",
"V RayQueryIntersection 1 RayQueryCommittedIntersectionKHR none 0 4472 -",
"K RayQueryCommittedIntersectionType ValueEnum",
"V RayQueryCommittedIntersectionType 0 RayQueryCommittedIntersectionNoneKHR none 0 4472 -",
"V RayQueryCommittedIntersectionType 1 RayQueryCommittedIntersectionTriangleKHR none 0 4472 -",
"V RayQueryCommittedIntersectionType 2 RayQueryCommittedIntersectionGeneratedKHR none 0 4472 -",
"K RayQueryCandidateIntersectionType ValueEnum",
"V RayQueryCandidateIntersectionType 0 RayQueryCandidateIntersectionTriangleKHR none 0 4472 -",
"V RayQueryCandidateIntersectionType 1 RayQueryCandidateIntersectionAABBKHR none 0 4472 -",
"K PackedVectorFormat ValueEnum",
"V PackedVectorFormat 0 PackedVectorFormat4x8Bit 67072 0 - -",
"V PackedVectorFormat 0 PackedVectorFormat4x8BitKHR 67072 0 - SPV_KHR_integer_dot_product",
"K CooperativeMatrixOperands BitEnum",
"V CooperativeMatrixOperands 0 NoneKHR none 0 - -",
"V CooperativeMatrixOperands 1 MatrixASignedComponentsKHR none 0 - -",
"V CooperativeMatrixOperands 2 MatrixBSignedComponentsKHR none 0 - -",
"V CooperativeMatrixOperands 4 MatrixCSignedComponentsKHR none 0 - -",
"V CooperativeMatrixOperands 8 MatrixResultSignedComponentsKHR none 0 - -",
"V CooperativeMatrixOperands 16 SaturatingAccumulationKHR none 0 - -",
"K CooperativeMatrixLayout ValueEnum",
"V CooperativeMatrixLayout 0 RowMajorKHR none 0 - -",
"V CooperativeMatrixLayout 1 ColumnMajorKHR none 0 - -",
"K CooperativeMatrixUse ValueEnum",
"V CooperativeMatrixUse 0 MatrixAKHR none 0 - -",
"V CooperativeMatrixUse 1 MatrixBKHR none 0 - -",
"V CooperativeMatrixUse 2 MatrixAccumulatorKHR none 0 - -",
"K InitializationModeQualifier ValueEnum",
"V InitializationModeQualifier 0 InitOnDeviceReprogramINTEL none 0 6189 -",
"V InitializationModeQualifier 1 InitOnDeviceResetINTEL none 0 6189 -",
"K LoadCacheControl ValueEnum",
"V LoadCacheControl 0 UncachedINTEL none 0 6441 -",
"V LoadCacheControl 1 CachedINTEL none 0 6441 -",
"V LoadCacheControl 2 StreamingINTEL none 0 6441 -",
"V LoadCacheControl 3 InvalidateAfterReadINTEL none 0 6441 -",
"V LoadCacheControl 4 ConstCachedINTEL none 0 6441 -",
"K StoreCacheControl ValueEnum",
"V StoreCacheControl 0 UncachedINTEL none 0 6441 -",
"V StoreCacheControl 1 WriteThroughINTEL none 0 6441 -",
"V StoreCacheControl 2 WriteBackINTEL none 0 6441 -",
"V StoreCacheControl 3 StreamingINTEL none 0 6441 -",
"K NamedMaximumNumberOfRegisters ValueEnum",
"V NamedMaximumNumberOfRegisters 0 AutoINTEL none 0 6460 -",
"K IdResultType Id",
"K IdResult Id",
"K IdMemorySemantics Id",
"K IdScope Id",
"K IdRef Id",
"K LiteralInteger Literal",
"K LiteralString Literal",
"K LiteralFloat Literal",
"K LiteralContextDependentNumber Literal",
"K LiteralExtInstInteger Literal",
"K LiteralSpecConstantOpInteger Literal",
"C PairLiteralIntegerIdRef LiteralInteger IdRef",
"C PairIdRefLiteralInteger IdRef LiteralInteger",
"C PairIdRefIdRef IdRef IdRef",
"I 0 OpNop Miscellaneous 65536 0 - -",
"I 1 OpUndef Miscellaneous 65536 0 - - IdResultType IdResult",
"I 2 OpSourceContinued Debug 65536 0 - - LiteralString",
"I 3 OpSource Debug 65536 0 - - SourceLanguage LiteralInteger IdRef? LiteralString?",
"I 4 OpSourceExtension Debug 65536 0 - - LiteralString",
"I 5 OpName Debug 65536 0 - - IdRef LiteralString",
"I 6 OpMemberName Debug 65536 0 - - IdRef LiteralInteger LiteralString",
"I 7 OpString Debug 65536 0 - - IdResult LiteralString",
"I 8 OpLine Debug 65536 0 - - IdRef LiteralInteger LiteralInteger",
"I 10 OpExtension Extension 65536 0 - - LiteralString",
"I 11 OpExtInstImport Extension 65536 0 - - IdResult LiteralString",
"I 12 OpExtInst Extension 65536 0 - - IdResultType IdResult IdRef LiteralExtInstInteger IdRef*",
"I 14 OpMemoryModel Mode-Setting 65536 0 - - AddressingModel MemoryModel",
"I 15 OpEntryPoint Mode-Setting 65536 0 - - ExecutionModel IdRef LiteralString IdRef*",
"I 16 OpExecutionMode Mode-Setting 65536 0 - - IdRef ExecutionMode",
"I 17 OpCapability Mode-Setting 65536 0 - - Capability",
"I 19 OpTypeVoid Type-Declaration 65536 0 - - IdResult",
"I 20 OpTypeBool Type-Declaration 65536 0 - - IdResult",
"I 21 OpTypeInt Type-Declaration 65536 0 - - IdResult LiteralInteger LiteralInteger",
"I 22 OpTypeFloat Type-Declaration 65536 0 - - IdResult LiteralInteger",
"I 23 OpTypeVector Type-Declaration 65536 0 - - IdResult IdRef LiteralInteger",
"I 24 OpTypeMatrix Type-Declaration 65536 0 0 - IdResult IdRef LiteralInteger",
"I 25 OpTypeImage Type-Declaration 65536 0 - - IdResult IdRef Dim LiteralInteger LiteralInteger LiteralInteger LiteralInteger ImageFormat AccessQualifier?",
"I 26 OpTypeSampler Type-Declaration 65536 0 - - IdResult",
"I 27 OpTypeSampledImage Type-Declaration 65536 0 - - IdResult IdRef",
"I 28 OpTypeArray Type-Declaration 65536 0 - - IdResult IdRef IdRef",
"I 29 OpTypeRuntimeArray Type-Declaration 65536 0 1 - IdResult IdRef",
"I 30 OpTypeStruct Type-Declaration 65536 0 - - IdResult IdRef*",
"I 31 OpTypeOpaque Type-Declaration 65536 0 6 - IdResult LiteralString",
"I 32 OpTypePointer Type-Declaration 65536 0 - - IdResult StorageClass IdRef",
"I 33 OpTypeFunction Type-Declaration 65536 0 - - IdResult IdRef IdRef*",
"I 34 OpTypeEvent Type-Declaration 65536 0 6 - IdResult",
"I 35 OpTypeDeviceEvent Type-Declaration 65536 0 19 - IdResult",
"I 36 OpTypeReserveId Type-Declaration 65536 0 17 - IdResult",
"I 37 OpTypeQueue Type-Declaration 65536 0 19 - IdResult",
"I 38 OpTypePipe Type-Declaration 65536 0 17 - IdResult AccessQualifier",
"I 39 OpTypeForwardPointer Type-Declaration 65536 0 4,5347 - IdRef StorageClass",
"I 41 OpConstantTrue Constant-Creation 65536 0 - - IdResultType IdResult",
"I 42 OpConstantFalse Constant-Creation 65536 0 - - IdResultType IdResult",
"I 43 OpConstant Constant-Creation 65536 0 - - IdResultType IdResult LiteralContextDependentNumber",
"I 44 OpConstantComposite Constant-Creation 65536 0 - - IdResultType IdResult IdRef*",
"I 45 OpConstantSampler Constant-Creation 65536 0 20 - IdResultType IdResult SamplerAddressingMode LiteralInteger SamplerFilterMode",
"I 46 OpConstantNull Constant-Creation 65536 0 - - IdResultType IdResult",
"I 48 OpSpecConstantTrue Constant-Creation 65536 0 - - IdResultType IdResult",
"I 49 OpSpecConstantFalse Constant-Creation 65536 0 - - IdResultType IdResult",
"I 50 OpSpecConstant Constant-Creation 65536 0 - - IdResultType IdResult LiteralContextDependentNumber",
"I 51 OpSpecConstantComposite Constant-Creation 65536 0 - - IdResultType IdResult IdRef*",
"I 52 OpSpecConstantOp Constant-Creation 65536 0 - - IdResultType IdResult LiteralSpecConstantOpInteger",
"I 54 OpFunction Function 65536 0 - - IdResultType IdResult FunctionControl IdRef",
"I 55 OpFunctionParameter Function 65536 0 - - IdResultType IdResult",
"I 56 OpFunctionEnd Function 65536 0 - -",
"I 57 OpFunctionCall Function 65536 0 - - IdResultType IdResult IdRef IdRef*",
"I 59 OpVariable Memory 65536 0 - - IdResultType IdResult StorageClass IdRef?",
"I 60 OpImageTexelPointer Memory 65536 0 - - IdResultType IdResult IdRef IdRef IdRef",
"I 61 OpLoad Memory 65536 0 - - IdResultType IdResult IdRef MemoryAccess?",
"I 62 OpStore Memory 65536 0 - - IdRef IdRef MemoryAccess?",
"I 63 OpCopyMemory Memory 65536 0 - - IdRef IdRef MemoryAccess? MemoryAccess?",
"I 64 OpCopyMemorySized Memory 65536 0 4 - IdRef IdRef IdRef MemoryAccess? MemoryAccess?",
"I 65 OpAccessChain Memory 65536 0 - - IdResultType IdResult IdRef IdRef*",
"I 66 OpInBoundsAccessChain Memory 65536 0 - - IdResultType IdResult IdRef IdRef*",
"I 67 OpPtrAccessChain Memory 65536 0 4,4442,4441,5347 - IdResultType IdResult IdRef IdRef IdRef*",
"I 68 OpArrayLength Memory 65536 0 1 - IdResultType IdResult IdRef LiteralInteger",
"I 69 OpGenericPtrMemSemantics Memory 65536 0 6 - IdResultType IdResult IdRef",
"I 70 OpInBoundsPtrAccessChain Memory 65536 0 4 - IdResultType IdResult IdRef IdRef IdRef*",
"I 71 OpDecorate Annotation 65536 0 - - IdRef Decoration",
"I 72 OpMemberDecorate Annotation 65536 0 - - IdRef LiteralInteger Decoration",
"I 73 OpDecorationGroup Annotation 65536 0 - - IdResult",
"I 74 OpGroupDecorate Annotation 65536 0 - - IdRef IdRef*",
"I 75 OpGroupMemberDecorate Annotation 65536 0 - - IdRef PairIdRefLiteralInteger*",
"I 77 OpVectorExtractDynamic Composite 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 78 OpVectorInsertDynamic Composite 65536 0 - - IdResultType IdResult IdRef IdRef IdRef",
"I 79 OpVectorShuffle Composite 65536 0 - - IdResultType IdResult IdRef IdRef LiteralInteger*",
"I 80 OpCompositeConstruct Composite 65536 0 - - IdResultType IdResult IdRef*",
"I 81 OpCompositeExtract Composite 65536 0 - - IdResultType IdResult IdRef LiteralInteger*",
"I 82 OpCompositeInsert Composite 65536 0 - - IdResultType IdResult IdRef IdRef LiteralInteger*",
"I 83 OpCopyObject Composite 65536 0 - - IdResultType IdResult IdRef",
"I 84 OpTranspose Composite 65536 0 0 - IdResultType IdResult IdRef",
"I 86 OpSampledImage Image 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 87 OpImageSampleImplicitLod Image 65536 0 1 - IdResultType IdResult IdRef IdRef ImageOperands?",
"I 88 OpImageSampleExplicitLod Image 65536 0 - - IdResultType IdResult IdRef IdRef ImageOperands",
"I 89 OpImageSampleDrefImplicitLod Image 65536 0 1 - IdResultType IdResult IdRef IdRef IdRef ImageOperands?",
"I 90 OpImageSampleDrefExplicitLod Image 65536 0 1 - IdResultType IdResult IdRef IdRef IdRef ImageOperands",
"I 91 OpImageSampleProjImplicitLod Image 65536 0 1 - IdResultType IdResult IdRef IdRef ImageOperands?",
"I 92 OpImageSampleProjExplicitLod Image 65536 0 1 - IdResultType IdResult IdRef IdRef ImageOperands",
"I 93 OpImageSampleProjDrefImplicitLod Image 65536 0 1 - IdResultType IdResult IdRef IdRef IdRef ImageOperands?",
"I 94 OpImageSampleProjDrefExplicitLod Image 65536 0 1 - IdResultType IdResult IdRef IdRef IdRef ImageOperands",
"I 95 OpImageFetch Image 65536 0 - - IdResultType IdResult IdRef IdRef ImageOperands?",
"I 96 OpImageGather Image 65536 0 1 - IdResultType IdResult IdRef IdRef IdRef ImageOperands?",
"I 97 OpImageDrefGather Image 65536 0 1 - IdResultType IdResult IdRef IdRef IdRef ImageOperands?",
"I 98 OpImageRead Image 65536 0 - - IdResultType IdResult IdRef IdRef ImageOperands?",
"I 99 OpImageWrite Image 65536 0 - - IdRef IdRef IdRef ImageOperands?",
"I 100 OpImage Image 65536 0 - - IdResultType IdResult IdRef",
"I 101 OpImageQueryFormat Image 65536 0 6 - IdResultType IdResult IdRef",
"I 102 OpImageQueryOrder Image 65536 0 6 - IdResultType IdResult IdRef",
"I 103 OpImageQuerySizeLod Image 65536 0 6,50 - IdResultType IdResult IdRef IdRef",
"I 104 OpImageQuerySize Image 65536 0 6,50 - IdResultType IdResult IdRef",
"I 105 OpImageQueryLod Image 65536 0 50 - IdResultType IdResult IdRef IdRef",
"I 106 OpImageQueryLevels Image 65536 0 6,50 - IdResultType IdResult IdRef",
"I 107 OpImageQuerySamples Image 65536 0 6,50 - IdResultType IdResult IdRef",
"I 109 OpConvertFToU Conversion 65536 0 - - IdResultType IdResult IdRef",
"I 110 OpConvertFToS Conversion 65536 0 - - IdResultType IdResult IdRef",
"I 111 OpConvertSToF Conversion 65536 0 - - IdResultType IdResult IdRef",
"I 112 OpConvertUToF Conversion 65536 0 - - IdResultType IdResult IdRef",
"I 113 OpUConvert Conversion 65536 0 - - IdResultType IdResult IdRef",
"I 114 OpSConvert Conversion 65536 0 - - IdResultType IdResult IdRef",
"I 115 OpFConvert Conversion 65536 0 - - IdResultType IdResult IdRef",
"I 116 OpQuantizeToF16 Conversion 65536 0 - - IdResultType IdResult IdRef",
"I 117 OpConvertPtrToU Conversion 65536 0 4,5347 - IdResultType IdResult IdRef",
"I 118 OpSatConvertSToU Conversion 65536 0 6 - IdResultType IdResult IdRef",
"I 119 OpSatConvertUToS Conversion 65536 0 6 - IdResultType IdResult IdRef",
"I 120 OpConvertUToPtr Conversion 65536 0 4,5347 - IdResultType IdResult IdRef",
"I 121 OpPtrCastToGeneric Conversion 65536 0 6 - IdResultType IdResult IdRef",
"I 122 OpGenericCastToPtr Conversion 65536 0 6 - IdResultType IdResult IdRef",
"I 123 OpGenericCastToPtrExplicit Conversion 65536 0 6 - IdResultType IdResult IdRef StorageClass",
"I 124 OpBitcast Conversion 65536 0 - - IdResultType IdResult IdRef",
"I 126 OpSNegate Arithmetic 65536 0 - - IdResultType IdResult IdRef",
"I 127 OpFNegate Arithmetic 65536 0 - - IdResultType IdResult IdRef",
"I 128 OpIAdd Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 129 OpFAdd Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 130 OpISub Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 131 OpFSub Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 132 OpIMul Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 133 OpFMul Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 134 OpUDiv Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 135 OpSDiv Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 136 OpFDiv Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 137 OpUMod Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 138 OpSRem Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 139 OpSMod Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 140 OpFRem Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 141 OpFMod Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 142 OpVectorTimesScalar Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 143 OpMatrixTimesScalar Arithmetic 65536 0 0 - IdResultType IdResult IdRef IdRef",
"I 144 OpVectorTimesMatrix Arithmetic 65536 0 0 - IdResultType IdResult IdRef IdRef",
"I 145 OpMatrixTimesVector Arithmetic 65536 0 0 - IdResultType IdResult IdRef IdRef",
"I 146 OpMatrixTimesMatrix Arithmetic 65536 0 0 - IdResultType IdResult IdRef IdRef",
"I 147 OpOuterProduct Arithmetic 65536 0 0 - IdResultType IdResult IdRef IdRef",
"I 148 OpDot Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 149 OpIAddCarry Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 150 OpISubBorrow Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 151 OpUMulExtended Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 152 OpSMulExtended Arithmetic 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 154 OpAny Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef",
"I 155 OpAll Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef",
"I 156 OpIsNan Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef",
"I 157 OpIsInf Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef",
"I 158 OpIsFinite Relational_and_Logical 65536 0 6 - IdResultType IdResult IdRef",
"I 159 OpIsNormal Relational_and_Logical 65536 0 6 - IdResultType IdResult IdRef",
"I 160 OpSignBitSet Relational_and_Logical 65536 0 6 - IdResultType IdResult IdRef",
"I 161 OpLessOrGreater Relational_and_Logical 65536 66816 6 - IdResultType IdResult IdRef IdRef",
"I 162 OpOrdered Relational_and_Logical 65536 0 6 - IdResultType IdResult IdRef IdRef",
"I 163 OpUnordered Relational_and_Logical 65536 0 6 - IdResultType IdResult IdRef IdRef",
"I 164 OpLogicalEqual Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 165 OpLogicalNotEqual Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 166 OpLogicalOr Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 167 OpLogicalAnd Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 168 OpLogicalNot Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef",
"I 169 OpSelect Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef IdRef",
"I 170 OpIEqual Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 171 OpINotEqual Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 172 OpUGreaterThan Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 173 OpSGreaterThan Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 174 OpUGreaterThanEqual Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 175 OpSGreaterThanEqual Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 176 OpULessThan Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 177 OpSLessThan Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 178 OpULessThanEqual Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 179 OpSLessThanEqual Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 180 OpFOrdEqual Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 181 OpFUnordEqual Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 182 OpFOrdNotEqual Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 183 OpFUnordNotEqual Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 184 OpFOrdLessThan Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 185 OpFUnordLessThan Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 186 OpFOrdGreaterThan Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 187 OpFUnordGreaterThan Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 188 OpFOrdLessThanEqual Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 189 OpFUnordLessThanEqual Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 190 OpFOrdGreaterThanEqual Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 191 OpFUnordGreaterThanEqual Relational_and_Logical 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 194 OpShiftRightLogical Bit 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 195 OpShiftRightArithmetic Bit 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 196 OpShiftLeftLogical Bit 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 197 OpBitwiseOr Bit 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 198 OpBitwiseXor Bit 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 199 OpBitwiseAnd Bit 65536 0 - - IdResultType IdResult IdRef IdRef",
"I 200 OpNot Bit 65536 0 - - IdResultType IdResult IdRef",
"I 201 OpBitFieldInsert Bit 65536 0 1,6025 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 202 OpBitFieldSExtract Bit 65536 0 1,6025 - IdResultType IdResult IdRef IdRef IdRef",
"I 203 OpBitFieldUExtract Bit 65536 0 1,6025 - IdResultType IdResult IdRef IdRef IdRef",
"I 204 OpBitReverse Bit 65536 0 1,6025 - IdResultType IdResult IdRef",
"I 205 OpBitCount Bit 65536 0 - - IdResultType IdResult IdRef",
"I 207 OpDPdx Derivative 65536 0 1 - IdResultType IdResult IdRef",
"I 208 OpDPdy Derivative 65536 0 1 - IdResultType IdResult IdRef",
"I 209 OpFwidth Derivative 65536 0 1 - IdResultType IdResult IdRef",
"I 210 OpDPdxFine Derivative 65536 0 51 - IdResultType IdResult IdRef",
"I 211 OpDPdyFine Derivative 65536 0 51 - IdResultType IdResult IdRef",
"I 212 OpFwidthFine Derivative 65536 0 51 - IdResultType IdResult IdRef",
"I 213 OpDPdxCoarse Derivative 65536 0 51 - IdResultType IdResult IdRef",
"I 214 OpDPdyCoarse Derivative 65536 0 51 - IdResultType IdResult IdRef",
"I 215 OpFwidthCoarse Derivative 65536 0 51 - IdResultType IdResult IdRef",
"I 218 OpEmitVertex Primitive 65536 0 2 -",
"I 219 OpEndPrimitive Primitive 65536 0 2 -",
"I 220 OpEmitStreamVertex Primitive 65536 0 54 - IdRef",
"I 221 OpEndStreamPrimitive Primitive 65536 0 54 - IdRef",
"I 224 OpControlBarrier Barrier 65536 0 - - IdScope IdScope IdMemorySemantics",
"I 225 OpMemoryBarrier Barrier 65536 0 - - IdScope IdMemorySemantics",
"I 227 OpAtomicLoad Atomic 65536 0 - - IdResultType IdResult IdRef IdScope IdMemorySemantics",
"I 228 OpAtomicStore Atomic 65536 0 - - IdRef IdScope IdMemorySemantics IdRef",
"I 229 OpAtomicExchange Atomic 65536 0 - - IdResultType IdResult IdRef IdScope IdMemorySemantics IdRef",
"I 230 OpAtomicCompareExchange Atomic 65536 0 - - IdResultType IdResult IdRef IdScope IdMemorySemantics IdMemorySemantics IdRef IdRef",
"I 231 OpAtomicCompareExchangeWeak Atomic 65536 66304 6 - IdResultType IdResult IdRef IdScope IdMemorySemantics IdMemorySemantics IdRef IdRef",
"I 232 OpAtomicIIncrement Atomic 65536 0 - - IdResultType IdResult IdRef IdScope IdMemorySemantics",
"I 233 OpAtomicIDecrement Atomic 65536 0 - - IdResultType IdResult IdRef IdScope IdMemorySemantics",
"I 234 OpAtomicIAdd Atomic 65536 0 - - IdResultType IdResult IdRef IdScope IdMemorySemantics IdRef",
"I 235 OpAtomicISub Atomic 65536 0 - - IdResultType IdResult IdRef IdScope IdMemorySemantics IdRef",
"I 236 OpAtomicSMin Atomic 65536 0 - - IdResultType IdResult IdRef IdScope IdMemorySemantics IdRef",
"I 237 OpAtomicUMin Atomic 65536 0 - - IdResultType IdResult IdRef IdScope IdMemorySemantics IdRef",
"I 238 OpAtomicSMax Atomic 65536 0 - - IdResultType IdResult IdRef IdScope IdMemorySemantics IdRef",
"I 239 OpAtomicUMax Atomic 65536 0 - - IdResultType IdResult IdRef IdScope IdMemorySemantics IdRef",
"I 240 OpAtomicAnd Atomic 65536 0 - - IdResultType IdResult IdRef IdScope IdMemorySemantics IdRef",
"I 241 OpAtomicOr Atomic 65536 0 - - IdResultType IdResult IdRef IdScope IdMemorySemantics IdRef",
"I 242 OpAtomicXor Atomic 65536 0 - - IdResultType IdResult IdRef IdScope IdMemorySemantics IdRef",
"I 245 OpPhi Control-Flow 65536 0 - - IdResultType IdResult PairIdRefIdRef*",
"I 246 OpLoopMerge Control-Flow 65536 0 - - IdRef IdRef LoopControl",
"I 247 OpSelectionMerge Control-Flow 65536 0 - - IdRef SelectionControl",
"I 248 OpLabel Control-Flow 65536 0 - - IdResult",
"I 249 OpBranch Control-Flow 65536 0 - - IdRef",
"I 250 OpBranchConditional Control-Flow 65536 0 - - IdRef IdRef IdRef LiteralInteger*",
"I 251 OpSwitch Control-Flow 65536 0 - - IdRef IdRef PairLiteralIntegerIdRef*",
"I 252 OpKill Control-Flow 65536 0 1 -",
"I 253 OpReturn Control-Flow 65536 0 - -",
"I 254 OpReturnValue Control-Flow 65536 0 - - IdRef",
"I 255 OpUnreachable Control-Flow 65536 0 - -",
"I 256 OpLifetimeStart Control-Flow 65536 0 6 - IdRef LiteralInteger",
"I 257 OpLifetimeStop Control-Flow 65536 0 6 - IdRef LiteralInteger",
"I 259 OpGroupAsyncCopy Group 65536 0 6 - IdResultType IdResult IdScope IdRef IdRef IdRef IdRef IdRef",
"I 260 OpGroupWaitEvents Group 65536 0 6 - IdScope IdRef IdRef",
"I 261 OpGroupAll Group 65536 0 18 - IdResultType IdResult IdScope IdRef",
"I 262 OpGroupAny Group 65536 0 18 - IdResultType IdResult IdScope IdRef",
"I 263 OpGroupBroadcast Group 65536 0 18 - IdResultType IdResult IdScope IdRef IdRef",
"I 264 OpGroupIAdd Group 65536 0 18 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 265 OpGroupFAdd Group 65536 0 18 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 266 OpGroupFMin Group 65536 0 18 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 267 OpGroupUMin Group 65536 0 18 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 268 OpGroupSMin Group 65536 0 18 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 269 OpGroupFMax Group 65536 0 18 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 270 OpGroupUMax Group 65536 0 18 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 271 OpGroupSMax Group 65536 0 18 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 274 OpReadPipe Pipe 65536 0 17 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 275 OpWritePipe Pipe 65536 0 17 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 276 OpReservedReadPipe Pipe 65536 0 17 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef IdRef",
"I 277 OpReservedWritePipe Pipe 65536 0 17 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef IdRef",
"I 278 OpReserveReadPipePackets Pipe 65536 0 17 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 279 OpReserveWritePipePackets Pipe 65536 0 17 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 280 OpCommitReadPipe Pipe 65536 0 17 - IdRef IdRef IdRef IdRef",
"I 281 OpCommitWritePipe Pipe 65536 0 17 - IdRef IdRef IdRef IdRef",
"I 282 OpIsValidReserveId Pipe 65536 0 17 - IdResultType IdResult IdRef",
"I 283 OpGetNumPipePackets Pipe 65536 0 17 - IdResultType IdResult IdRef IdRef IdRef",
"I 284 OpGetMaxPipePackets Pipe 65536 0 17 - IdResultType IdResult IdRef IdRef IdRef",
"I 285 OpGroupReserveReadPipePackets Pipe 65536 0 17 - IdResultType IdResult IdScope IdRef IdRef IdRef IdRef",
"I 286 OpGroupReserveWritePipePackets Pipe 65536 0 17 - IdResultType IdResult IdScope IdRef IdRef IdRef IdRef",
"I 287 OpGroupCommitReadPipe Pipe 65536 0 17 - IdScope IdRef IdRef IdRef IdRef",
"I 288 OpGroupCommitWritePipe Pipe 65536 0 17 - IdScope IdRef IdRef IdRef IdRef",
"I 291 OpEnqueueMarker Device-Side_Enqueue 65536 0 19 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 292 OpEnqueueKernel Device-Side_Enqueue 65536 0 19 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef*",
"I 293 OpGetKernelNDrangeSubGroupCount Device-Side_Enqueue 65536 0 19 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef",
"I 294 OpGetKernelNDrangeMaxSubGroupSize Device-Side_Enqueue 65536 0 19 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef",
"I 295 OpGetKernelWorkGroupSize Device-Side_Enqueue 65536 0 19 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 296 OpGetKernelPreferredWorkGroupSizeMultiple Device-Side_Enqueue 65536 0 19 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 297 OpRetainEvent Device-Side_Enqueue 65536 0 19 - IdRef",
"I 298 OpReleaseEvent Device-Side_Enqueue 65536 0 19 - IdRef",
"I 299 OpCreateUserEvent Device-Side_Enqueue 65536 0 19 - IdResultType IdResult",
"I 300 OpIsValidEvent Device-Side_Enqueue 65536 0 19 - IdResultType IdResult IdRef",
"I 301 OpSetUserEventStatus Device-Side_Enqueue 65536 0 19 - IdRef IdRef",
"I 302 OpCaptureEventProfilingInfo Device-Side_Enqueue 65536 0 19 - IdRef IdRef IdRef",
"I 303 OpGetDefaultQueue Device-Side_Enqueue 65536 0 19 - IdResultType IdResult",
"I 304 OpBuildNDRange Device-Side_Enqueue 65536 0 19 - IdResultType IdResult IdRef IdRef IdRef",
"I 305 OpImageSparseSampleImplicitLod Image 65536 0 41 - IdResultType IdResult IdRef IdRef ImageOperands?",
"I 306 OpImageSparseSampleExplicitLod Image 65536 0 41 - IdResultType IdResult IdRef IdRef ImageOperands",
"I 307 OpImageSparseSampleDrefImplicitLod Image 65536 0 41 - IdResultType IdResult IdRef IdRef IdRef ImageOperands?",
"I 308 OpImageSparseSampleDrefExplicitLod Image 65536 0 41 - IdResultType IdResult IdRef IdRef IdRef ImageOperands",
"I 309 OpImageSparseSampleProjImplicitLod Image none 0 41 - IdResultType IdResult IdRef IdRef ImageOperands?",
"I 310 OpImageSparseSampleProjExplicitLod Image none 0 41 - IdResultType IdResult IdRef IdRef ImageOperands",
"I 311 OpImageSparseSampleProjDrefImplicitLod Image none 0 41 - IdResultType IdResult IdRef IdRef IdRef ImageOperands?",
"I 312 OpImageSparseSampleProjDrefExplicitLod Image none 0 41 - IdResultType IdResult IdRef IdRef IdRef ImageOperands",
"I 313 OpImageSparseFetch Image 65536 0 41 - IdResultType IdResult IdRef IdRef ImageOperands?",
"I 314 OpImageSparseGather Image 65536 0 41 - IdResultType IdResult IdRef IdRef IdRef ImageOperands?",
"I 315 OpImageSparseDrefGather Image 65536 0 41 - IdResultType IdResult IdRef IdRef IdRef ImageOperands?",
"I 316 OpImageSparseTexelsResident Image 65536 0 41 - IdResultType IdResult IdRef",
"I 317 OpNoLine Debug 65536 0 - -",
"I 318 OpAtomicFlagTestAndSet Atomic 65536 0 6 - IdResultType IdResult IdRef IdScope IdMemorySemantics",
"I 319 OpAtomicFlagClear Atomic 65536 0 6 - IdRef IdScope IdMemorySemantics",
"I 320 OpImageSparseRead Image 65536 0 41 - IdResultType IdResult IdRef IdRef ImageOperands?",
"I 321 OpSizeOf Miscellaneous 65792 0 4 - IdResultType IdResult IdRef",
"I 322 OpTypePipeStorage Type-Declaration 65792 0 60 - IdResult",
"I 323 OpConstantPipeStorage Pipe 65792 0 60 - IdResultType IdResult LiteralInteger LiteralInteger LiteralInteger",
"I 324 OpCreatePipeFromPipeStorage Pipe 65792 0 60 - IdResultType IdResult IdRef",
"I 325 OpGetKernelLocalSizeForSubgroupCount Device-Side_Enqueue 65792 0 58 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef",
"I 326 OpGetKernelMaxNumSubgroups Device-Side_Enqueue 65792 0 58 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 327 OpTypeNamedBarrier Type-Declaration 65792 0 59 - IdResult",
"I 328 OpNamedBarrierInitialize Barrier 65792 0 59 - IdResultType IdResult IdRef",
"I 329 OpMemoryNamedBarrier Barrier 65792 0 59 - IdRef IdScope IdMemorySemantics",
"I 330 OpModuleProcessed Debug 65792 0 - - LiteralString",
"I 331 OpExecutionModeId Mode-Setting 66048 0 - - IdRef ExecutionMode",
"I 332 OpDecorateId Annotation 66048 0 - SPV_GOOGLE_hlsl_functionality1 IdRef Decoration",
"I 333 OpGroupNonUniformElect Non-Uniform 66304 0 61 - IdResultType IdResult IdScope",
"I 334 OpGroupNonUniformAll Non-Uniform 66304 0 62 - IdResultType IdResult IdScope IdRef",
"I 335 OpGroupNonUniformAny Non-Uniform 66304 0 62 - IdResultType IdResult IdScope IdRef",
"I 336 OpGroupNonUniformAllEqual Non-Uniform 66304 0 62 - IdResultType IdResult IdScope IdRef",
"I 337 OpGroupNonUniformBroadcast Non-Uniform 66304 0 64 - IdResultType IdResult IdScope IdRef IdRef",
"I 338 OpGroupNonUniformBroadcastFirst Non-Uniform 66304 0 64 - IdResultType IdResult IdScope IdRef",
"I 339 OpGroupNonUniformBallot Non-Uniform 66304 0 64 - IdResultType IdResult IdScope IdRef",
"I 340 OpGroupNonUniformInverseBallot Non-Uniform 66304 0 64 - IdResultType IdResult IdScope IdRef",
"I 341 OpGroupNonUniformBallotBitExtract Non-Uniform 66304 0 64 - IdResultType IdResult IdScope IdRef IdRef",
"I 342 OpGroupNonUniformBallotBitCount Non-Uniform 66304 0 64 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 343 OpGroupNonUniformBallotFindLSB Non-Uniform 66304 0 64 - IdResultType IdResult IdScope IdRef",
"I 344 OpGroupNonUniformBallotFindMSB Non-Uniform 66304 0 64 - IdResultType IdResult IdScope IdRef",
"I 345 OpGroupNonUniformShuffle Non-Uniform 66304 0 65 - IdResultType IdResult IdScope IdRef IdRef",
"I 346 OpGroupNonUniformShuffleXor Non-Uniform 66304 0 65 - IdResultType IdResult IdScope IdRef IdRef",
"I 347 OpGroupNonUniformShuffleUp Non-Uniform 66304 0 66 - IdResultType IdResult IdScope IdRef IdRef",
"I 348 OpGroupNonUniformShuffleDown Non-Uniform 66304 0 66 - IdResultType IdResult IdScope IdRef IdRef",
"I 349 OpGroupNonUniformIAdd Non-Uniform 66304 0 63,67,5297 - IdResultType IdResult IdScope GroupOperation IdRef IdRef?",
"I 350 OpGroupNonUniformFAdd Non-Uniform 66304 0 63,67,5297 - IdResultType IdResult IdScope GroupOperation IdRef IdRef?",
"I 351 OpGroupNonUniformIMul Non-Uniform 66304 0 63,67,5297 - IdResultType IdResult IdScope GroupOperation IdRef IdRef?",
"I 352 OpGroupNonUniformFMul Non-Uniform 66304 0 63,67,5297 - IdResultType IdResult IdScope GroupOperation IdRef IdRef?",
"I 353 OpGroupNonUniformSMin Non-Uniform 66304 0 63,67,5297 - IdResultType IdResult IdScope GroupOperation IdRef IdRef?",
"I 354 OpGroupNonUniformUMin Non-Uniform 66304 0 63,67,5297 - IdResultType IdResult IdScope GroupOperation IdRef IdRef?",
"I 355 OpGroupNonUniformFMin Non-Uniform 66304 0 63,67,5297 - IdResultType IdResult IdScope GroupOperation IdRef IdRef?",
"I 356 OpGroupNonUniformSMax Non-Uniform 66304 0 63,67,5297 - IdResultType IdResult IdScope GroupOperation IdRef IdRef?",
"I 357 OpGroupNonUniformUMax Non-Uniform 66304 0 63,67,5297 - IdResultType IdResult IdScope GroupOperation IdRef IdRef?",
"I 358 OpGroupNonUniformFMax Non-Uniform 66304 0 63,67,5297 - IdResultType IdResult IdScope GroupOperation IdRef IdRef?",
"I 359 OpGroupNonUniformBitwiseAnd Non-Uniform 66304 0 63,67,5297 - IdResultType IdResult IdScope GroupOperation IdRef IdRef?",
"I 360 OpGroupNonUniformBitwiseOr Non-Uniform 66304 0 63,67,5297 - IdResultType IdResult IdScope GroupOperation IdRef IdRef?",
"I 361 OpGroupNonUniformBitwiseXor Non-Uniform 66304 0 63,67,5297 - IdResultType IdResult IdScope GroupOperation IdRef IdRef?",
"I 362 OpGroupNonUniformLogicalAnd Non-Uniform 66304 0 63,67,5297 - IdResultType IdResult IdScope GroupOperation IdRef IdRef?",
"I 363 OpGroupNonUniformLogicalOr Non-Uniform 66304 0 63,67,5297 - IdResultType IdResult IdScope GroupOperation IdRef IdRef?",
"I 364 OpGroupNonUniformLogicalXor Non-Uniform 66304 0 63,67,5297 - IdResultType IdResult IdScope GroupOperation IdRef IdRef?",
"I 365 OpGroupNonUniformQuadBroadcast Non-Uniform 66304 0 68 - IdResultType IdResult IdScope IdRef IdRef",
"I 366 OpGroupNonUniformQuadSwap Non-Uniform 66304 0 68 - IdResultType IdResult IdScope IdRef IdRef",
"I 400 OpCopyLogical Composite 66560 0 - - IdResultType IdResult IdRef",
"I 401 OpPtrEqual Memory 66560 0 - - IdResultType IdResult IdRef IdRef",
"I 402 OpPtrNotEqual Memory 66560 0 - - IdResultType IdResult IdRef IdRef",
"I 403 OpPtrDiff Memory 66560 0 4,4442,4441 - IdResultType IdResult IdRef IdRef",
"I 4160 OpColorAttachmentReadEXT Image none 0 4166 - IdResultType IdResult IdRef IdRef?",
"I 4161 OpDepthAttachmentReadEXT Image none 0 4167 - IdResultType IdResult IdRef?",
"I 4162 OpStencilAttachmentReadEXT Image none 0 4168 - IdResultType IdResult IdRef?",
"I 4416 OpTerminateInvocation Control-Flow 67072 0 1 SPV_KHR_terminate_invocation",
"I 4421 OpSubgroupBallotKHR Group none 0 4423 SPV_KHR_shader_ballot IdResultType IdResult IdRef",
"I 4422 OpSubgroupFirstInvocationKHR Group none 0 4423 SPV_KHR_shader_ballot IdResultType IdResult IdRef",
"I 4428 OpSubgroupAllKHR Group none 0 4431 SPV_KHR_subgroup_vote IdResultType IdResult IdRef",
"I 4429 OpSubgroupAnyKHR Group none 0 4431 SPV_KHR_subgroup_vote IdResultType IdResult IdRef",
"I 4430 OpSubgroupAllEqualKHR Group none 0 4431 SPV_KHR_subgroup_vote IdResultType IdResult IdRef",
"I 4431 OpGroupNonUniformRotateKHR Group none 0 6026 - IdResultType IdResult IdScope IdRef IdRef IdRef?",
"I 4432 OpSubgroupReadInvocationKHR Group none 0 4423 SPV_KHR_shader_ballot IdResultType IdResult IdRef IdRef",
"I 4445 OpTraceRayKHR Reserved none 0 4479 SPV_KHR_ray_tracing IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef",
"I 4446 OpExecuteCallableKHR Reserved none 0 4479 SPV_KHR_ray_tracing IdRef IdRef",
"I 4447 OpConvertUToAccelerationStructureKHR Reserved none 0 4479,4472 SPV_KHR_ray_tracing,SPV_KHR_ray_query IdResultType IdResult IdRef",
"I 4448 OpIgnoreIntersectionKHR Reserved none 0 4479 SPV_KHR_ray_tracing",
"I 4449 OpTerminateRayKHR Reserved none 0 4479 SPV_KHR_ray_tracing",
"I 4450 OpSDot Arithmetic 67072 0 6019 - IdResultType IdResult IdRef IdRef PackedVectorFormat?",
"I 4450 OpSDotKHR Arithmetic 67072 0 6019 SPV_KHR_integer_dot_product IdResultType IdResult IdRef IdRef PackedVectorFormat?",
"I 4451 OpUDot Arithmetic 67072 0 6019 - IdResultType IdResult IdRef IdRef PackedVectorFormat?",
"I 4451 OpUDotKHR Arithmetic 67072 0 6019 SPV_KHR_integer_dot_product IdResultType IdResult IdRef IdRef PackedVectorFormat?",
"I 4452 OpSUDot Arithmetic 67072 0 6019 - IdResultType IdResult IdRef IdRef PackedVectorFormat?",
"I 4452 OpSUDotKHR Arithmetic 67072 0 6019 SPV_KHR_integer_dot_product IdResultType IdResult IdRef IdRef PackedVectorFormat?",
"I 4453 OpSDotAccSat Arithmetic 67072 0 6019 - IdResultType IdResult IdRef IdRef IdRef PackedVectorFormat?",
"I 4453 OpSDotAccSatKHR Arithmetic 67072 0 6019 SPV_KHR_integer_dot_product IdResultType IdResult IdRef IdRef IdRef PackedVectorFormat?",
"I 4454 OpUDotAccSat Arithmetic 67072 0 6019 - IdResultType IdResult IdRef IdRef IdRef PackedVectorFormat?",
"I 4454 OpUDotAccSatKHR Arithmetic 67072 0 6019 SPV_KHR_integer_dot_product IdResultType IdResult IdRef IdRef IdRef PackedVectorFormat?",
"I 4455 OpSUDotAccSat Arithmetic 67072 0 6019 - IdResultType IdResult IdRef IdRef IdRef PackedVectorFormat?",
"I 4455 OpSUDotAccSatKHR Arithmetic 67072 0 6019 SPV_KHR_integer_dot_product IdResultType IdResult IdRef IdRef IdRef PackedVectorFormat?",
"I 4456 OpTypeCooperativeMatrixKHR Type-Declaration none 0 6022 - IdResult IdRef IdScope IdRef IdRef IdRef",
"I 4457 OpCooperativeMatrixLoadKHR Memory none 0 6022 - IdResultType IdResult IdRef IdRef IdRef? MemoryAccess?",
"I 4458 OpCooperativeMatrixStoreKHR Memory none 0 6022 - IdRef IdRef IdRef IdRef? MemoryAccess?",
"I 4459 OpCooperativeMatrixMulAddKHR Arithmetic none 0 6022 - IdResultType IdResult IdRef IdRef IdRef CooperativeMatrixOperands?",
"I 4460 OpCooperativeMatrixLengthKHR Miscellaneous none 0 6022 - IdResultType IdResult IdRef",
"I 4472 OpTypeRayQueryKHR Type-Declaration none 0 4472 SPV_KHR_ray_query IdResult",
"I 4473 OpRayQueryInitializeKHR Reserved none 0 4472 SPV_KHR_ray_query IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef",
"I 4474 OpRayQueryTerminateKHR Reserved none 0 4472 SPV_KHR_ray_query IdRef",
"I 4475 OpRayQueryGenerateIntersectionKHR Reserved none 0 4472 SPV_KHR_ray_query IdRef IdRef",
"I 4476 OpRayQueryConfirmIntersectionKHR Reserved none 0 4472 SPV_KHR_ray_query IdRef",
"I 4477 OpRayQueryProceedKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef",
"I 4479 OpRayQueryGetIntersectionTypeKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef IdRef",
"I 4480 OpImageSampleWeightedQCOM Image none 0 4484 - IdResultType IdResult IdRef IdRef IdRef",
"I 4481 OpImageBoxFilterQCOM Image none 0 4485 - IdResultType IdResult IdRef IdRef IdRef",
"I 4482 OpImageBlockMatchSSDQCOM Image none 0 4486 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef",
"I 4483 OpImageBlockMatchSADQCOM Image none 0 4486 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef",
"I 4500 OpImageBlockMatchWindowSSDQCOM Image none 0 4498 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef",
"I 4501 OpImageBlockMatchWindowSADQCOM Image none 0 4498 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef",
"I 4502 OpImageBlockMatchGatherSSDQCOM Image none 0 4498 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef",
"I 4503 OpImageBlockMatchGatherSADQCOM Image none 0 4498 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef",
"I 5000 OpGroupIAddNonUniformAMD Group none 0 18 SPV_AMD_shader_ballot IdResultType IdResult IdScope GroupOperation IdRef",
"I 5001 OpGroupFAddNonUniformAMD Group none 0 18 SPV_AMD_shader_ballot IdResultType IdResult IdScope GroupOperation IdRef",
"I 5002 OpGroupFMinNonUniformAMD Group none 0 18 SPV_AMD_shader_ballot IdResultType IdResult IdScope GroupOperation IdRef",
"I 5003 OpGroupUMinNonUniformAMD Group none 0 18 SPV_AMD_shader_ballot IdResultType IdResult IdScope GroupOperation IdRef",
"I 5004 OpGroupSMinNonUniformAMD Group none 0 18 SPV_AMD_shader_ballot IdResultType IdResult IdScope GroupOperation IdRef",
"I 5005 OpGroupFMaxNonUniformAMD Group none 0 18 SPV_AMD_shader_ballot IdResultType IdResult IdScope GroupOperation IdRef",
"I 5006 OpGroupUMaxNonUniformAMD Group none 0 18 SPV_AMD_shader_ballot IdResultType IdResult IdScope GroupOperation IdRef",
"I 5007 OpGroupSMaxNonUniformAMD Group none 0 18 SPV_AMD_shader_ballot IdResultType IdResult IdScope GroupOperation IdRef",
"I 5011 OpFragmentMaskFetchAMD Reserved none 0 5010 SPV_AMD_shader_fragment_mask IdResultType IdResult IdRef IdRef",
"I 5012 OpFragmentFetchAMD Reserved none 0 5010 SPV_AMD_shader_fragment_mask IdResultType IdResult IdRef IdRef IdRef",
"I 5056 OpReadClockKHR Reserved none 0 5055 - IdResultType IdResult IdScope",
"I 5075 OpFinalizeNodePayloadsAMDX Reserved none 0 5067 - IdRef",
"I 5078 OpFinishWritingNodePayloadAMDX Reserved none 0 5067 - IdResultType IdResult IdRef",
"I 5090 OpInitializeNodePayloadsAMDX Reserved none 0 5067 - IdRef IdScope IdRef IdRef",
"I 5110 OpGroupNonUniformQuadAllKHR Non-Uniform none 0 5087 - IdResultType IdResult IdRef",
"I 5111 OpGroupNonUniformQuadAnyKHR Non-Uniform none 0 5087 - IdResultType IdResult IdRef",
"I 5249 OpHitObjectRecordHitMotionNV Reserved none 0 5383,5341 - IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef",
"I 5250 OpHitObjectRecordHitWithIndexMotionNV Reserved none 0 5383,5341 - IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef",
"I 5251 OpHitObjectRecordMissMotionNV Reserved none 0 5383,5341 - IdRef IdRef IdRef IdRef IdRef IdRef IdRef",
"I 5252 OpHitObjectGetWorldToObjectNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5253 OpHitObjectGetObjectToWorldNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5254 OpHitObjectGetObjectRayDirectionNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5255 OpHitObjectGetObjectRayOriginNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5256 OpHitObjectTraceRayMotionNV Reserved none 0 5383,5341 - IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef",
"I 5257 OpHitObjectGetShaderRecordBufferHandleNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5258 OpHitObjectGetShaderBindingTableRecordIndexNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5259 OpHitObjectRecordEmptyNV Reserved none 0 5383 - IdRef",
"I 5260 OpHitObjectTraceRayNV Reserved none 0 5383 - IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef",
"I 5261 OpHitObjectRecordHitNV Reserved none 0 5383 - IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef",
"I 5262 OpHitObjectRecordHitWithIndexNV Reserved none 0 5383 - IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef",
"I 5263 OpHitObjectRecordMissNV Reserved none 0 5383 - IdRef IdRef IdRef IdRef IdRef IdRef",
"I 5264 OpHitObjectExecuteShaderNV Reserved none 0 5383 - IdRef IdRef",
"I 5265 OpHitObjectGetCurrentTimeNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5266 OpHitObjectGetAttributesNV Reserved none 0 5383 - IdRef IdRef",
"I 5267 OpHitObjectGetHitKindNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5268 OpHitObjectGetPrimitiveIndexNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5269 OpHitObjectGetGeometryIndexNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5270 OpHitObjectGetInstanceIdNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5271 OpHitObjectGetInstanceCustomIndexNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5272 OpHitObjectGetWorldRayDirectionNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5273 OpHitObjectGetWorldRayOriginNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5274 OpHitObjectGetRayTMaxNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5275 OpHitObjectGetRayTMinNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5276 OpHitObjectIsEmptyNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5277 OpHitObjectIsHitNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5278 OpHitObjectIsMissNV Reserved none 0 5383 - IdResultType IdResult IdRef",
"I 5279 OpReorderThreadWithHitObjectNV Reserved none 0 5383 - IdRef IdRef? IdRef?",
"I 5280 OpReorderThreadWithHintNV Reserved none 0 5383 - IdRef IdRef",
"I 5281 OpTypeHitObjectNV Type-Declaration none 0 5383 - IdResult",
"I 5283 OpImageSampleFootprintNV Image none 0 5282 SPV_NV_shader_image_footprint IdResultType IdResult IdRef IdRef IdRef IdRef ImageOperands?",
"I 5294 OpEmitMeshTasksEXT Reserved none 0 5283 - IdRef IdRef IdRef IdRef?",
"I 5295 OpSetMeshOutputsEXT Reserved none 0 5283 - IdRef IdRef",
"I 5296 OpGroupNonUniformPartitionNV Non-Uniform none 0 5297 SPV_NV_shader_subgroup_partitioned IdResultType IdResult IdRef",
"I 5299 OpWritePackedPrimitiveIndices4x8NV Reserved none 0 5266 SPV_NV_mesh_shader IdRef IdRef",
"I 5300 OpFetchMicroTriangleVertexPositionNV Reserved none 0 5380 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef",
"I 5301 OpFetchMicroTriangleVertexBarycentricNV Reserved none 0 5380 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef",
"I 5334 OpReportIntersectionNV Reserved none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing IdResultType IdResult IdRef IdRef",
"I 5334 OpReportIntersectionKHR Reserved none 0 5340,4479 SPV_NV_ray_tracing,SPV_KHR_ray_tracing IdResultType IdResult IdRef IdRef",
"I 5335 OpIgnoreIntersectionNV Reserved none 0 5340 SPV_NV_ray_tracing",
"I 5336 OpTerminateRayNV Reserved none 0 5340 SPV_NV_ray_tracing",
"I 5337 OpTraceNV Reserved none 0 5340 SPV_NV_ray_tracing IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef",
"I 5338 OpTraceMotionNV Reserved none 0 5341 SPV_NV_ray_tracing_motion_blur IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef",
"I 5339 OpTraceRayMotionNV Reserved none 0 5341 SPV_NV_ray_tracing_motion_blur IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef",
"I 5340 OpRayQueryGetIntersectionTriangleVertexPositionsKHR Reserved none 0 5391 - IdResultType IdResult IdRef IdRef",
"I 5341 OpTypeAccelerationStructureNV Type-Declaration none 0 5340,4479,4472 SPV_NV_ray_tracing,SPV_KHR_ray_tracing,SPV_KHR_ray_query IdResult",
"I 5341 OpTypeAccelerationStructureKHR Type-Declaration none 0 5340,4479,4472 SPV_NV_ray_tracing,SPV_KHR_ray_tracing,SPV_KHR_ray_query IdResult",
"I 5344 OpExecuteCallableNV Reserved none 0 5340 SPV_NV_ray_tracing IdRef IdRef",
"I 5358 OpTypeCooperativeMatrixNV Type-Declaration none 0 5357 SPV_NV_cooperative_matrix IdResult IdRef IdScope IdRef IdRef",
"I 5359 OpCooperativeMatrixLoadNV Reserved none 0 5357 SPV_NV_cooperative_matrix IdResultType IdResult IdRef IdRef IdRef MemoryAccess?",
"I 5360 OpCooperativeMatrixStoreNV Reserved none 0 5357 SPV_NV_cooperative_matrix IdRef IdRef IdRef IdRef MemoryAccess?",
"I 5361 OpCooperativeMatrixMulAddNV Reserved none 0 5357 SPV_NV_cooperative_matrix IdResultType IdResult IdRef IdRef IdRef",
"I 5362 OpCooperativeMatrixLengthNV Reserved none 0 5357 SPV_NV_cooperative_matrix IdResultType IdResult IdRef",
"I 5364 OpBeginInvocationInterlockEXT Reserved none 0 5363,5378,5372 SPV_EXT_fragment_shader_interlock",
"I 5365 OpEndInvocationInterlockEXT Reserved none 0 5363,5378,5372 SPV_EXT_fragment_shader_interlock",
"I 5380 OpDemoteToHelperInvocation Control-Flow 67072 0 5379 -",
"I 5380 OpDemoteToHelperInvocationEXT Control-Flow 67072 0 5379 -",
"I 5381 OpIsHelperInvocationEXT Reserved none 0 5379 SPV_EXT_demote_to_helper_invocation IdResultType IdResult",
"I 5391 OpConvertUToImageNV Reserved none 0 5390 - IdResultType IdResult IdRef",
"I 5392 OpConvertUToSamplerNV Reserved none 0 5390 - IdResultType IdResult IdRef",
"I 5393 OpConvertImageToUNV Reserved none 0 5390 - IdResultType IdResult IdRef",
"I 5394 OpConvertSamplerToUNV Reserved none 0 5390 - IdResultType IdResult IdRef",
"I 5395 OpConvertUToSampledImageNV Reserved none 0 5390 - IdResultType IdResult IdRef",
"I 5396 OpConvertSampledImageToUNV Reserved none 0 5390 - IdResultType IdResult IdRef",
"I 5397 OpSamplerImageAddressingModeNV Reserved none 0 5390 - LiteralInteger",
"I 5571 OpSubgroupShuffleINTEL Group none 0 5568 - IdResultType IdResult IdRef IdRef",
"I 5572 OpSubgroupShuffleDownINTEL Group none 0 5568 - IdResultType IdResult IdRef IdRef IdRef",
"I 5573 OpSubgroupShuffleUpINTEL Group none 0 5568 - IdResultType IdResult IdRef IdRef IdRef",
"I 5574 OpSubgroupShuffleXorINTEL Group none 0 5568 - IdResultType IdResult IdRef IdRef",
"I 5575 OpSubgroupBlockReadINTEL Group none 0 5569 - IdResultType IdResult IdRef",
"I 5576 OpSubgroupBlockWriteINTEL Group none 0 5569 - IdRef IdRef",
"I 5577 OpSubgroupImageBlockReadINTEL Group none 0 5570 - IdResultType IdResult IdRef IdRef",
"I 5578 OpSubgroupImageBlockWriteINTEL Group none 0 5570 - IdRef IdRef IdRef",
"I 5580 OpSubgroupImageMediaBlockReadINTEL Group none 0 5579 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 5581 OpSubgroupImageMediaBlockWriteINTEL Group none 0 5579 - IdRef IdRef IdRef IdRef IdRef",
"I 5585 OpUCountLeadingZerosINTEL Reserved none 0 5584 - IdResultType IdResult IdRef",
"I 5586 OpUCountTrailingZerosINTEL Reserved none 0 5584 - IdResultType IdResult IdRef",
"I 5587 OpAbsISubINTEL Reserved none 0 5584 - IdResultType IdResult IdRef IdRef",
"I 5588 OpAbsUSubINTEL Reserved none 0 5584 - IdResultType IdResult IdRef IdRef",
"I 5589 OpIAddSatINTEL Reserved none 0 5584 - IdResultType IdResult IdRef IdRef",
"I 5590 OpUAddSatINTEL Reserved none 0 5584 - IdResultType IdResult IdRef IdRef",
"I 5591 OpIAverageINTEL Reserved none 0 5584 - IdResultType IdResult IdRef IdRef",
"I 5592 OpUAverageINTEL Reserved none 0 5584 - IdResultType IdResult IdRef IdRef",
"I 5593 OpIAverageRoundedINTEL Reserved none 0 5584 - IdResultType IdResult IdRef IdRef",
"I 5594 OpUAverageRoundedINTEL Reserved none 0 5584 - IdResultType IdResult IdRef IdRef",
"I 5595 OpISubSatINTEL Reserved none 0 5584 - IdResultType IdResult IdRef IdRef",
"I 5596 OpUSubSatINTEL Reserved none 0 5584 - IdResultType IdResult IdRef IdRef",
"I 5597 OpIMul32x16INTEL Reserved none 0 5584 - IdResultType IdResult IdRef IdRef",
"I 5598 OpUMul32x16INTEL Reserved none 0 5584 - IdResultType IdResult IdRef IdRef",
"I 5600 OpConstantFunctionPointerINTEL Exclude none 0 5603 SPV_INTEL_function_pointers IdResultType IdResult IdRef",
"I 5601 OpFunctionPointerCallINTEL Exclude none 0 5603 SPV_INTEL_function_pointers IdResultType IdResult IdRef*",
"I 5609 OpAsmTargetINTEL Exclude none 0 5606 - IdResultType IdResult LiteralString",
"I 5610 OpAsmINTEL Exclude none 0 5606 - IdResultType IdResult IdRef IdRef LiteralString LiteralString",
"I 5611 OpAsmCallINTEL Exclude none 0 5606 - IdResultType IdResult IdRef IdRef*",
"I 5614 OpAtomicFMinEXT Atomic none 0 5616,5612,5613,5404 - IdResultType IdResult IdRef IdScope IdMemorySemantics IdRef",
"I 5615 OpAtomicFMaxEXT Atomic none 0 5616,5612,5613,5404 - IdResultType IdResult IdRef IdScope IdMemorySemantics IdRef",
"I 5630 OpAssumeTrueKHR Miscellaneous none 0 5629 SPV_KHR_expect_assume IdRef",
"I 5631 OpExpectKHR Miscellaneous none 0 5629 SPV_KHR_expect_assume IdResultType IdResult IdRef IdRef",
"I 5632 OpDecorateString Annotation 66560 0 - SPV_GOOGLE_decorate_string,SPV_GOOGLE_hlsl_functionality1 IdRef Decoration",
"I 5632 OpDecorateStringGOOGLE Annotation 66560 0 - SPV_GOOGLE_decorate_string,SPV_GOOGLE_hlsl_functionality1 IdRef Decoration",
"I 5633 OpMemberDecorateString Annotation 66560 0 - SPV_GOOGLE_decorate_string,SPV_GOOGLE_hlsl_functionality1 IdRef LiteralInteger Decoration",
"I 5633 OpMemberDecorateStringGOOGLE Annotation 66560 0 - SPV_GOOGLE_decorate_string,SPV_GOOGLE_hlsl_functionality1 IdRef LiteralInteger Decoration",
"I 5699 OpVmeImageINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5700 OpTypeVmeImageINTEL Exclude none 0 5696 - IdResult IdRef",
"I 5701 OpTypeAvcImePayloadINTEL Exclude none 0 5696 - IdResult",
"I 5702 OpTypeAvcRefPayloadINTEL Exclude none 0 5696 - IdResult",
"I 5703 OpTypeAvcSicPayloadINTEL Exclude none 0 5696 - IdResult",
"I 5704 OpTypeAvcMcePayloadINTEL Exclude none 0 5696 - IdResult",
"I 5705 OpTypeAvcMceResultINTEL Exclude none 0 5696 - IdResult",
"I 5706 OpTypeAvcImeResultINTEL Exclude none 0 5696 - IdResult",
"I 5707 OpTypeAvcImeResultSingleReferenceStreamoutINTEL Exclude none 0 5696 - IdResult",
"I 5708 OpTypeAvcImeResultDualReferenceStreamoutINTEL Exclude none 0 5696 - IdResult",
"I 5709 OpTypeAvcImeSingleReferenceStreaminINTEL Exclude none 0 5696 - IdResult",
"I 5710 OpTypeAvcImeDualReferenceStreaminINTEL Exclude none 0 5696 - IdResult",
"I 5711 OpTypeAvcRefResultINTEL Exclude none 0 5696 - IdResult",
"I 5712 OpTypeAvcSicResultINTEL Exclude none 0 5696 - IdResult",
"I 5713 OpSubgroupAvcMceGetDefaultInterBaseMultiReferencePenaltyINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5714 OpSubgroupAvcMceSetInterBaseMultiReferencePenaltyINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5715 OpSubgroupAvcMceGetDefaultInterShapePenaltyINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5716 OpSubgroupAvcMceSetInterShapePenaltyINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5717 OpSubgroupAvcMceGetDefaultInterDirectionPenaltyINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5718 OpSubgroupAvcMceSetInterDirectionPenaltyINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5719 OpSubgroupAvcMceGetDefaultIntraLumaShapePenaltyINTEL Exclude none 0 5696,5697 - IdResultType IdResult IdRef IdRef",
"I 5720 OpSubgroupAvcMceGetDefaultInterMotionVectorCostTableINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5721 OpSubgroupAvcMceGetDefaultHighPenaltyCostTableINTEL Exclude none 0 5696 - IdResultType IdResult",
"I 5722 OpSubgroupAvcMceGetDefaultMediumPenaltyCostTableINTEL Exclude none 0 5696 - IdResultType IdResult",
"I 5723 OpSubgroupAvcMceGetDefaultLowPenaltyCostTableINTEL Exclude none 0 5696 - IdResultType IdResult",
"I 5724 OpSubgroupAvcMceSetMotionVectorCostFunctionINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 5725 OpSubgroupAvcMceGetDefaultIntraLumaModePenaltyINTEL Exclude none 0 5696,5697 - IdResultType IdResult IdRef IdRef",
"I 5726 OpSubgroupAvcMceGetDefaultNonDcLumaIntraPenaltyINTEL Exclude none 0 5696,5697 - IdResultType IdResult",
"I 5727 OpSubgroupAvcMceGetDefaultIntraChromaModeBasePenaltyINTEL Exclude none 0 5696,5698 - IdResultType IdResult",
"I 5728 OpSubgroupAvcMceSetAcOnlyHaarINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5729 OpSubgroupAvcMceSetSourceInterlacedFieldPolarityINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5730 OpSubgroupAvcMceSetSingleReferenceInterlacedFieldPolarityINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5731 OpSubgroupAvcMceSetDualReferenceInterlacedFieldPolaritiesINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef",
"I 5732 OpSubgroupAvcMceConvertToImePayloadINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5733 OpSubgroupAvcMceConvertToImeResultINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5734 OpSubgroupAvcMceConvertToRefPayloadINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5735 OpSubgroupAvcMceConvertToRefResultINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5736 OpSubgroupAvcMceConvertToSicPayloadINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5737 OpSubgroupAvcMceConvertToSicResultINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5738 OpSubgroupAvcMceGetMotionVectorsINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5739 OpSubgroupAvcMceGetInterDistortionsINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5740 OpSubgroupAvcMceGetBestInterDistortionsINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5741 OpSubgroupAvcMceGetInterMajorShapeINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5742 OpSubgroupAvcMceGetInterMinorShapeINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5743 OpSubgroupAvcMceGetInterDirectionsINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5744 OpSubgroupAvcMceGetInterMotionVectorCountINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5745 OpSubgroupAvcMceGetInterReferenceIdsINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5746 OpSubgroupAvcMceGetInterReferenceInterlacedFieldPolaritiesINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef",
"I 5747 OpSubgroupAvcImeInitializeINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef",
"I 5748 OpSubgroupAvcImeSetSingleReferenceINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef",
"I 5749 OpSubgroupAvcImeSetDualReferenceINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 5750 OpSubgroupAvcImeRefWindowSizeINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5751 OpSubgroupAvcImeAdjustRefOffsetINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 5752 OpSubgroupAvcImeConvertToMcePayloadINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5753 OpSubgroupAvcImeSetMaxMotionVectorCountINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5754 OpSubgroupAvcImeSetUnidirectionalMixDisableINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5755 OpSubgroupAvcImeSetEarlySearchTerminationThresholdINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5756 OpSubgroupAvcImeSetWeightedSadINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5757 OpSubgroupAvcImeEvaluateWithSingleReferenceINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef",
"I 5758 OpSubgroupAvcImeEvaluateWithDualReferenceINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 5759 OpSubgroupAvcImeEvaluateWithSingleReferenceStreaminINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 5760 OpSubgroupAvcImeEvaluateWithDualReferenceStreaminINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef",
"I 5761 OpSubgroupAvcImeEvaluateWithSingleReferenceStreamoutINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef",
"I 5762 OpSubgroupAvcImeEvaluateWithDualReferenceStreamoutINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 5763 OpSubgroupAvcImeEvaluateWithSingleReferenceStreaminoutINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 5764 OpSubgroupAvcImeEvaluateWithDualReferenceStreaminoutINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef",
"I 5765 OpSubgroupAvcImeConvertToMceResultINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5766 OpSubgroupAvcImeGetSingleReferenceStreaminINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5767 OpSubgroupAvcImeGetDualReferenceStreaminINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5768 OpSubgroupAvcImeStripSingleReferenceStreamoutINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5769 OpSubgroupAvcImeStripDualReferenceStreamoutINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5770 OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeMotionVectorsINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5771 OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeDistortionsINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5772 OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeReferenceIdsINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5773 OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeMotionVectorsINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef",
"I 5774 OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeDistortionsINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef",
"I 5775 OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeReferenceIdsINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef",
"I 5776 OpSubgroupAvcImeGetBorderReachedINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5777 OpSubgroupAvcImeGetTruncatedSearchIndicationINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5778 OpSubgroupAvcImeGetUnidirectionalEarlySearchTerminationINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5779 OpSubgroupAvcImeGetWeightingPatternMinimumMotionVectorINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5780 OpSubgroupAvcImeGetWeightingPatternMinimumDistortionINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5781 OpSubgroupAvcFmeInitializeINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef IdRef IdRef",
"I 5782 OpSubgroupAvcBmeInitializeINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef",
"I 5783 OpSubgroupAvcRefConvertToMcePayloadINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5784 OpSubgroupAvcRefSetBidirectionalMixDisableINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5785 OpSubgroupAvcRefSetBilinearFilterEnableINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5786 OpSubgroupAvcRefEvaluateWithSingleReferenceINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef",
"I 5787 OpSubgroupAvcRefEvaluateWithDualReferenceINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 5788 OpSubgroupAvcRefEvaluateWithMultiReferenceINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef",
"I 5789 OpSubgroupAvcRefEvaluateWithMultiReferenceInterlacedINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 5790 OpSubgroupAvcRefConvertToMceResultINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5791 OpSubgroupAvcSicInitializeINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5792 OpSubgroupAvcSicConfigureSkcINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef IdRef",
"I 5793 OpSubgroupAvcSicConfigureIpeLumaINTEL Exclude none 0 5696,5697 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef",
"I 5794 OpSubgroupAvcSicConfigureIpeLumaChromaINTEL Exclude none 0 5696,5698 - IdResultType IdResult IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef IdRef",
"I 5795 OpSubgroupAvcSicGetMotionVectorMaskINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5796 OpSubgroupAvcSicConvertToMcePayloadINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5797 OpSubgroupAvcSicSetIntraLumaShapePenaltyINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5798 OpSubgroupAvcSicSetIntraLumaModeCostFunctionINTEL Exclude none 0 5696,5697 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 5799 OpSubgroupAvcSicSetIntraChromaModeCostFunctionINTEL Exclude none 0 5696,5698 - IdResultType IdResult IdRef IdRef",
"I 5800 OpSubgroupAvcSicSetBilinearFilterEnableINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5801 OpSubgroupAvcSicSetSkcForwardTransformEnableINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5802 OpSubgroupAvcSicSetBlockBasedRawSkipSadINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef",
"I 5803 OpSubgroupAvcSicEvaluateIpeINTEL Exclude none 0 5696,5697 - IdResultType IdResult IdRef IdRef",
"I 5804 OpSubgroupAvcSicEvaluateWithSingleReferenceINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef",
"I 5805 OpSubgroupAvcSicEvaluateWithDualReferenceINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 5806 OpSubgroupAvcSicEvaluateWithMultiReferenceINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef",
"I 5807 OpSubgroupAvcSicEvaluateWithMultiReferenceInterlacedINTEL Exclude none 0 5696 - IdResultType IdResult IdRef IdRef IdRef IdRef",
"I 5808 OpSubgroupAvcSicConvertToMceResultINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5809 OpSubgroupAvcSicGetIpeLumaShapeINTEL Exclude none 0 5696,5697 - IdResultType IdResult IdRef",
"I 5810 OpSubgroupAvcSicGetBestIpeLumaDistortionINTEL Exclude none 0 5696,5697 - IdResultType IdResult IdRef",
"I 5811 OpSubgroupAvcSicGetBestIpeChromaDistortionINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5812 OpSubgroupAvcSicGetPackedIpeLumaModesINTEL Exclude none 0 5696,5697 - IdResultType IdResult IdRef",
"I 5813 OpSubgroupAvcSicGetIpeChromaModeINTEL Exclude none 0 5696,5698 - IdResultType IdResult IdRef",
"I 5814 OpSubgroupAvcSicGetPackedSkcLumaCountThresholdINTEL Exclude none 0 5696,5697 - IdResultType IdResult IdRef",
"I 5815 OpSubgroupAvcSicGetPackedSkcLumaSumThresholdINTEL Exclude none 0 5696,5697 - IdResultType IdResult IdRef",
"I 5816 OpSubgroupAvcSicGetInterRawSadsINTEL Exclude none 0 5696 - IdResultType IdResult IdRef",
"I 5818 OpVariableLengthArrayINTEL Exclude none 0 5817 - IdResultType IdResult IdRef",
"I 5819 OpSaveMemoryINTEL Exclude none 0 5817 - IdResultType IdResult",
"I 5820 OpRestoreMemoryINTEL Exclude none 0 5817 - IdRef",
"I 5840 OpArbitraryFloatSinCosPiINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5841 OpArbitraryFloatCastINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5842 OpArbitraryFloatCastFromIntINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5843 OpArbitraryFloatCastToIntINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5846 OpArbitraryFloatAddINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5847 OpArbitraryFloatSubINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5848 OpArbitraryFloatMulINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5849 OpArbitraryFloatDivINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5850 OpArbitraryFloatGTINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger IdRef LiteralInteger",
"I 5851 OpArbitraryFloatGEINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger IdRef LiteralInteger",
"I 5852 OpArbitraryFloatLTINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger IdRef LiteralInteger",
"I 5853 OpArbitraryFloatLEINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger IdRef LiteralInteger",
"I 5854 OpArbitraryFloatEQINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger IdRef LiteralInteger",
"I 5855 OpArbitraryFloatRecipINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5856 OpArbitraryFloatRSqrtINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5857 OpArbitraryFloatCbrtINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5858 OpArbitraryFloatHypotINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5859 OpArbitraryFloatSqrtINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5860 OpArbitraryFloatLogINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5861 OpArbitraryFloatLog2INTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5862 OpArbitraryFloatLog10INTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5863 OpArbitraryFloatLog1pINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5864 OpArbitraryFloatExpINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5865 OpArbitraryFloatExp2INTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5866 OpArbitraryFloatExp10INTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5867 OpArbitraryFloatExpm1INTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5868 OpArbitraryFloatSinINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5869 OpArbitraryFloatCosINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5870 OpArbitraryFloatSinCosINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5871 OpArbitraryFloatSinPiINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5872 OpArbitraryFloatCosPiINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5873 OpArbitraryFloatASinINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5874 OpArbitraryFloatASinPiINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5875 OpArbitraryFloatACosINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5876 OpArbitraryFloatACosPiINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5877 OpArbitraryFloatATanINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5878 OpArbitraryFloatATanPiINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5879 OpArbitraryFloatATan2INTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5880 OpArbitraryFloatPowINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5881 OpArbitraryFloatPowRINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5882 OpArbitraryFloatPowNINTEL Exclude none 0 5845 - IdResultType IdResult IdRef LiteralInteger IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5887 OpLoopControlINTEL Reserved none 0 5886 SPV_INTEL_unstructured_loop_controls LiteralInteger*",
"I 5911 OpAliasDomainDeclINTEL Exclude none 0 5910 SPV_INTEL_memory_access_aliasing IdResult IdRef?",
"I 5912 OpAliasScopeDeclINTEL Exclude none 0 5910 SPV_INTEL_memory_access_aliasing IdResult IdRef IdRef?",
"I 5913 OpAliasScopeListDeclINTEL Exclude none 0 5910 SPV_INTEL_memory_access_aliasing IdResult IdRef*",
"I 5923 OpFixedSqrtINTEL Exclude none 0 5922 - IdResultType IdResult IdRef IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5924 OpFixedRecipINTEL Exclude none 0 5922 - IdResultType IdResult IdRef IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5925 OpFixedRsqrtINTEL Exclude none 0 5922 - IdResultType IdResult IdRef IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5926 OpFixedSinINTEL Exclude none 0 5922 - IdResultType IdResult IdRef IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5927 OpFixedCosINTEL Exclude none 0 5922 - IdResultType IdResult IdRef IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5928 OpFixedSinCosINTEL Exclude none 0 5922 - IdResultType IdResult IdRef IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5929 OpFixedSinPiINTEL Exclude none 0 5922 - IdResultType IdResult IdRef IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5930 OpFixedCosPiINTEL Exclude none 0 5922 - IdResultType IdResult IdRef IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5931 OpFixedSinCosPiINTEL Exclude none 0 5922 - IdResultType IdResult IdRef IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5932 OpFixedLogINTEL Exclude none 0 5922 - IdResultType IdResult IdRef IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5933 OpFixedExpINTEL Exclude none 0 5922 - IdResultType IdResult IdRef IdRef LiteralInteger LiteralInteger LiteralInteger LiteralInteger LiteralInteger",
"I 5934 OpPtrCastToCrossWorkgroupINTEL Exclude none 0 5935 - IdResultType IdResult IdRef",
"I 5938 OpCrossWorkgroupCastToPtrINTEL Exclude none 0 5935 - IdResultType IdResult IdRef",
"I 5946 OpReadPipeBlockingINTEL Pipe none 0 5945 SPV_INTEL_blocking_pipes IdResultType IdResult IdRef IdRef",
"I 5947 OpWritePipeBlockingINTEL Pipe none 0 5945 SPV_INTEL_blocking_pipes IdResultType IdResult IdRef IdRef",
"I 5949 OpFPGARegINTEL Reserved none 0 5948 SPV_INTEL_fpga_reg IdResultType IdResult IdRef IdRef",
"I 6016 OpRayQueryGetRayTMinKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef",
"I 6017 OpRayQueryGetRayFlagsKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef",
"I 6018 OpRayQueryGetIntersectionTKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef IdRef",
"I 6019 OpRayQueryGetIntersectionInstanceCustomIndexKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef IdRef",
"I 6020 OpRayQueryGetIntersectionInstanceIdKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef IdRef",
"I 6021 OpRayQueryGetIntersectionInstanceShaderBindingTableRecordOffsetKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef IdRef",
"I 6022 OpRayQueryGetIntersectionGeometryIndexKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef IdRef",
"I 6023 OpRayQueryGetIntersectionPrimitiveIndexKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef IdRef",
"I 6024 OpRayQueryGetIntersectionBarycentricsKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef IdRef",
"I 6025 OpRayQueryGetIntersectionFrontFaceKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef IdRef",
"I 6026 OpRayQueryGetIntersectionCandidateAABBOpaqueKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef",
"I 6027 OpRayQueryGetIntersectionObjectRayDirectionKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef IdRef",
"I 6028 OpRayQueryGetIntersectionObjectRayOriginKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef IdRef",
"I 6029 OpRayQueryGetWorldRayDirectionKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef",
"I 6030 OpRayQueryGetWorldRayOriginKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef",
"I 6031 OpRayQueryGetIntersectionObjectToWorldKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef IdRef",
"I 6032 OpRayQueryGetIntersectionWorldToObjectKHR Reserved none 0 4472 SPV_KHR_ray_query IdResultType IdResult IdRef IdRef",
"I 6035 OpAtomicFAddEXT Atomic none 0 6095,6033,6034,5404 SPV_EXT_shader_atomic_float_add IdResultType IdResult IdRef IdScope IdMemorySemantics IdRef",
"I 6086 OpTypeBufferSurfaceINTEL Type-Declaration none 0 5617 - IdResult AccessQualifier",
"I 6090 OpTypeStructContinuedINTEL Type-Declaration none 0 6089 - IdRef*",
"I 6091 OpConstantCompositeContinuedINTEL Constant-Creation none 0 6089 - IdRef*",
"I 6092 OpSpecConstantCompositeContinuedINTEL Constant-Creation none 0 6089 - IdRef*",
"I 6096 OpCompositeConstructContinuedINTEL Composite none 0 6089 - IdResultType IdResult IdRef*",
"I 6116 OpConvertFToBF16INTEL Conversion none 0 6115 - IdResultType IdResult IdRef",
"I 6117 OpConvertBF16ToFINTEL Conversion none 0 6115 - IdResultType IdResult IdRef",
"I 6142 OpControlBarrierArriveINTEL Barrier none 0 6141 - IdScope IdScope IdMemorySemantics",
"I 6143 OpControlBarrierWaitINTEL Barrier none 0 6141 - IdScope IdScope IdMemorySemantics",
"I 6401 OpGroupIMulKHR Group none 0 6400 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 6402 OpGroupFMulKHR Group none 0 6400 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 6403 OpGroupBitwiseAndKHR Group none 0 6400 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 6404 OpGroupBitwiseOrKHR Group none 0 6400 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 6405 OpGroupBitwiseXorKHR Group none 0 6400 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 6406 OpGroupLogicalAndKHR Group none 0 6400 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 6407 OpGroupLogicalOrKHR Group none 0 6400 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 6408 OpGroupLogicalXorKHR Group none 0 6400 - IdResultType IdResult IdScope GroupOperation IdRef",
"I 6428 OpMaskedGatherINTEL Memory none 0 6427 - IdResultType IdResult IdRef LiteralInteger IdRef IdRef",
"I 6429 OpMaskedScatterINTEL Memory none 0 6427 - IdRef IdRef LiteralInteger IdRef",
"E 1 1 Round - IdRef",
"E 1 2 RoundEven - IdRef",
"E 1 3 Trunc - IdRef",
"E 1 4 FAbs - IdRef",
"E 1 5 SAbs - IdRef",
"E 1 6 FSign - IdRef",
"E 1 7 SSign - IdRef",
"E 1 8 Floor - IdRef",
"E 1 9 Ceil - IdRef",
"E 1 10 Fract - IdRef",
"E 1 11 Radians - IdRef",
"E 1 12 Degrees - IdRef",
"E 1 13 Sin - IdRef",
"E 1 14 Cos - IdRef",
"E 1 15 Tan - IdRef",
"E 1 16 Asin - IdRef",
"E 1 17 Acos - IdRef",
"E 1 18 Atan - IdRef",
"E 1 19 Sinh - IdRef",
"E 1 20 Cosh - IdRef",
"E 1 21 Tanh - IdRef",
"E 1 22 Asinh - IdRef",
"E 1 23 Acosh - IdRef",
"E 1 24 Atanh - IdRef",
"E 1 25 Atan2 - IdRef IdRef",
"E 1 26 Pow - IdRef IdRef",
"E 1 27 Exp - IdRef",
"E 1 28 Log - IdRef",
"E 1 29 Exp2 - IdRef",
"E 1 30 Log2 - IdRef",
"E 1 31 Sqrt - IdRef",
"E 1 32 InverseSqrt - IdRef",
"E 1 33 Determinant - IdRef",
"E 1 34 MatrixInverse - IdRef",
"E 1 35 Modf - IdRef IdRef",
"E 1 36 ModfStruct - IdRef",
"E 1 37 FMin - IdRef IdRef",
"E 1 38 UMin - IdRef IdRef",
"E 1 39 SMin - IdRef IdRef",
"E 1 40 FMax - IdRef IdRef",
"E 1 41 UMax - IdRef IdRef",
"E 1 42 SMax - IdRef IdRef",
"E 1 43 FClamp - IdRef IdRef IdRef",
"E 1 44 UClamp - IdRef IdRef IdRef",
"E 1 45 SClamp - IdRef IdRef IdRef",
"E 1 46 FMix - IdRef IdRef IdRef",
"E 1 47 IMix - IdRef IdRef IdRef",
"E 1 48 Step - IdRef IdRef",
"E 1 49 SmoothStep - IdRef IdRef IdRef",
"E 1 50 Fma - IdRef IdRef IdRef",
"E 1 51 Frexp - IdRef IdRef",
"E 1 52 FrexpStruct - IdRef",
"E 1 53 Ldexp - IdRef IdRef",
"E 1 54 PackSnorm4x8 - IdRef",
"E 1 55 PackUnorm4x8 - IdRef",
"E 1 56 PackSnorm2x16 - IdRef",
"E 1 57 PackUnorm2x16 - IdRef",
"E 1 58 PackHalf2x16 - IdRef",
"E 1 59 PackDouble2x32 10 IdRef",
"E 1 60 UnpackSnorm2x16 - IdRef",
"E 1 61 UnpackUnorm2x16 - IdRef",
"E 1 62 UnpackHalf2x16 - IdRef",
"E 1 63 UnpackSnorm4x8 - IdRef",
"E 1 64 UnpackUnorm4x8 - IdRef",
"E 1 65 UnpackDouble2x32 10 IdRef",
"E 1 66 Length - IdRef",
"E 1 67 Distance - IdRef IdRef",
"E 1 68 Cross - IdRef IdRef",
"E 1 69 Normalize - IdRef",
"E 1 70 FaceForward - IdRef IdRef IdRef",
"E 1 71 Reflect - IdRef IdRef",
"E 1 72 Refract - IdRef IdRef IdRef",
"E 1 73 FindILsb - IdRef",
"E 1 74 FindSMsb - IdRef",
"E 1 75 FindUMsb - IdRef",
"E 1 76 InterpolateAtCentroid 52 IdRef",
"E 1 77 InterpolateAtSample 52 IdRef IdRef",
"E 1 78 InterpolateAtOffset 52 IdRef IdRef",
"E 1 79 NMin - IdRef IdRef",
"E 1 80 NMax - IdRef IdRef",
"E 1 81 NClamp - IdRef IdRef IdRef",
"E 2 0 acos - IdRef",
"E 2 1 acosh - IdRef",
"E 2 2 acospi - IdRef",
"E 2 3 asin - IdRef",
"E 2 4 asinh - IdRef",
"E 2 5 asinpi - IdRef",
"E 2 6 atan - IdRef",
"E 2 7 atan2 - IdRef IdRef",
"E 2 8 atanh - IdRef",
"E 2 9 atanpi - IdRef",
"E 2 10 atan2pi - IdRef IdRef",
"E 2 11 cbrt - IdRef",
"E 2 12 ceil - IdRef",
"E 2 13 copysign - IdRef IdRef",
"E 2 14 cos - IdRef",
"E 2 15 cosh - IdRef",
"E 2 16 cospi - IdRef",
"E 2 17 erfc - IdRef",
"E 2 18 erf - IdRef",
"E 2 19 exp - IdRef",
"E 2 20 exp2 - IdRef",
"E 2 21 exp10 - IdRef",
"E 2 22 expm1 - IdRef",
"E 2 23 fabs - IdRef",
"E 2 24 fdim - IdRef IdRef",
"E 2 25 floor - IdRef",
"E 2 26 fma - IdRef IdRef IdRef",
"E 2 27 fmax - IdRef IdRef",
"E 2 28 fmin - IdRef IdRef",
"E 2 29 fmod - IdRef IdRef",
"E 2 30 fract - IdRef IdRef",
"E 2 31 frexp - IdRef IdRef",
"E 2 32 hypot - IdRef IdRef",
"E 2 33 ilogb - IdRef",
"E 2 34 ldexp - IdRef IdRef",
"E 2 35 lgamma - IdRef",
"E 2 36 lgamma_r - IdRef IdRef",
"E 2 37 log - IdRef",
"E 2 38 log2 - IdRef",
"E 2 39 log10 - IdRef",
"E 2 40 log1p - IdRef",
"E 2 41 logb - IdRef",
"E 2 42 mad - IdRef IdRef IdRef",
"E 2 43 maxmag - IdRef IdRef",
"E 2 44 minmag - IdRef IdRef",
"E 2 45 modf - IdRef IdRef",
"E 2 46 nan - IdRef",
"E 2 47 nextafter - IdRef IdRef",
"E 2 48 pow - IdRef IdRef",
"E 2 49 pown - IdRef IdRef",
"E 2 50 powr - IdRef IdRef",
"E 2 51 remainder - IdRef IdRef",
"E 2 52 remquo - IdRef IdRef IdRef",
"E 2 53 rint - IdRef",
"E 2 54 rootn - IdRef IdRef",
"E 2 55 round - IdRef",
"E 2 56 rsqrt - IdRef",
"E 2 57 sin - IdRef",
"E 2 58 sincos - IdRef IdRef",
"E 2 59 sinh - IdRef",
"E 2 60 sinpi - IdRef",
"E 2 61 sqrt - IdRef",
"E 2 62 tan - IdRef",
"E 2 63 tanh - IdRef",
"E 2 64 tanpi - IdRef",
"E 2 65 tgamma - IdRef",
"E 2 66 trunc - IdRef",
"E 2 67 half_cos - IdRef",
"E 2 68 half_divide - IdRef IdRef",
"E 2 69 half_exp - IdRef",
"E 2 70 half_exp2 - IdRef",
"E 2 71 half_exp10 - IdRef",
"E 2 72 half_log - IdRef",
"E 2 73 half_log2 - IdRef",
"E 2 74 half_log10 - IdRef",
"E 2 75 half_powr - IdRef IdRef",
"E 2 76 half_recip - IdRef",
"E 2 77 half_rsqrt - IdRef",
"E 2 78 half_sin - IdRef",
"E 2 79 half_sqrt - IdRef",
"E 2 80 half_tan - IdRef",
"E 2 81 native_cos - IdRef",
"E 2 82 native_divide - IdRef IdRef",
"E 2 83 native_exp - IdRef",
"E 2 84 native_exp2 - IdRef",
"E 2 85 native_exp10 - IdRef",
"E 2 86 native_log - IdRef",
"E 2 87 native_log2 - IdRef",
"E 2 88 native_log10 - IdRef",
"E 2 89 native_powr - IdRef IdRef",
"E 2 90 native_recip - IdRef",
"E 2 91 native_rsqrt - IdRef",
"E 2 92 native_sin - IdRef",
"E 2 93 native_sqrt - IdRef",
"E 2 94 native_tan - IdRef",
"E 2 141 s_abs - IdRef",
"E 2 142 s_abs_diff - IdRef IdRef",
"E 2 143 s_add_sat - IdRef IdRef",
"E 2 144 u_add_sat - IdRef IdRef",
"E 2 145 s_hadd - IdRef IdRef",
"E 2 146 u_hadd - IdRef IdRef",
"E 2 147 s_rhadd - IdRef IdRef",
"E 2 148 u_rhadd - IdRef IdRef",
"E 2 149 s_clamp - IdRef IdRef IdRef",
"E 2 150 u_clamp - IdRef IdRef IdRef",
"E 2 151 clz - IdRef",
"E 2 152 ctz - IdRef",
"E 2 153 s_mad_hi - IdRef IdRef IdRef",
"E 2 154 u_mad_sat - IdRef IdRef IdRef",
"E 2 155 s_mad_sat - IdRef IdRef IdRef",
"E 2 156 s_max - IdRef IdRef",
"E 2 157 u_max - IdRef IdRef",
"E 2 158 s_min - IdRef IdRef",
"E 2 159 u_min - IdRef IdRef",
"E 2 160 s_mul_hi - IdRef IdRef",
"E 2 161 rotate - IdRef IdRef",
"E 2 162 s_sub_sat - IdRef IdRef",
"E 2 163 u_sub_sat - IdRef IdRef",
"E 2 164 u_upsample - IdRef IdRef",
"E 2 165 s_upsample - IdRef IdRef",
"E 2 166 popcount - IdRef",
"E 2 167 s_mad24 - IdRef IdRef IdRef",
"E 2 168 u_mad24 - IdRef IdRef IdRef",
"E 2 169 s_mul24 - IdRef IdRef",
"E 2 170 u_mul24 - IdRef IdRef",
"E 2 201 u_abs - IdRef",
"E 2 202 u_abs_diff - IdRef IdRef",
"E 2 203 u_mul_hi - IdRef IdRef",
"E 2 204 u_mad_hi - IdRef IdRef IdRef",
"E 2 95 fclamp - IdRef IdRef IdRef",
"E 2 96 degrees - IdRef",
"E 2 97 fmax_common - IdRef IdRef",
"E 2 98 fmin_common - IdRef IdRef",
"E 2 99 mix - IdRef IdRef IdRef",
"E 2 100 radians - IdRef",
"E 2 101 step - IdRef IdRef",
"E 2 102 smoothstep - IdRef IdRef IdRef",
"E 2 103 sign - IdRef",
"E 2 104 cross - IdRef IdRef",
"E 2 105 distance - IdRef IdRef",
"E 2 106 length - IdRef",
"E 2 107 normalize - IdRef",
"E 2 108 fast_distance - IdRef IdRef",
"E 2 109 fast_length - IdRef",
"E 2 110 fast_normalize - IdRef",
"E 2 186 bitselect - IdRef IdRef IdRef",
"E 2 187 select - IdRef IdRef IdRef",
"E 2 171 vloadn - IdRef IdRef LiteralInteger",
"E 2 172 vstoren - IdRef IdRef IdRef",
"E 2 173 vload_half - IdRef IdRef",
"E 2 174 vload_halfn - IdRef IdRef LiteralInteger",
"E 2 175 vstore_half - IdRef IdRef IdRef",
"E 2 176 vstore_half_r - IdRef IdRef IdRef FPRoundingMode",
"E 2 177 vstore_halfn - IdRef IdRef IdRef",
"E 2 178 vstore_halfn_r - IdRef IdRef IdRef FPRoundingMode",
"E 2 179 vloada_halfn - IdRef IdRef LiteralInteger",
"E 2 180 vstorea_halfn - IdRef IdRef IdRef",
"E 2 181 vstorea_halfn_r - IdRef IdRef IdRef FPRoundingMode",
"E 2 182 shuffle - IdRef IdRef",
"E 2 183 shuffle2 - IdRef IdRef IdRef",
"E 2 184 printf - IdRef IdRef*",
"E 2 185 prefetch - IdRef IdRef",
nullptr };

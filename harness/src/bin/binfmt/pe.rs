//! Numbers assigned by the PE/COFF specification.

use tmp::pecoff as p;

pub const TABLE: &[(&str, u64, u64)] = &[
    ("PE_MAGIC_OH32", p::PE_MAGIC_OH32 as u64, 0x010b),
    ("PE_MAGIC_OH32P", p::PE_MAGIC_OH32P as u64, 0x020b),
    ("PE_OFFSET", p::PE_OFFSET as u64, 0x3c),
    ("CHARACTERISTIC_RELOCS_STRIPPED", p::CHARACTERISTIC_RELOCS_STRIPPED as u64, 0x0001),
    ("CHARACTERISTIC_EXECUTABLE_IMAGE", p::CHARACTERISTIC_EXECUTABLE_IMAGE as u64, 0x0002),
    ("CHARACTERISTIC_LINE_NUMS_STRIPPED", p::CHARACTERISTIC_LINE_NUMS_STRIPPED as u64, 0x0004),
    ("CHARACTERISTIC_LOCAL_SYMS_STRIPPED", p::CHARACTERISTIC_LOCAL_SYMS_STRIPPED as u64, 0x0008),
    ("CHARACTERISTIC_AGGRESSIVE_WS_TRIM", p::CHARACTERISTIC_AGGRESSIVE_WS_TRIM as u64, 0x0010),
    ("CHARACTERISTIC_LARGE_ADDRESS_AWARE", p::CHARACTERISTIC_LARGE_ADDRESS_AWARE as u64, 0x0020),
    ("CHARACTERISTIC_BYTES_REVERSED_LO", p::CHARACTERISTIC_BYTES_REVERSED_LO as u64, 0x0080),
    ("CHARACTERISTIC_32BIT_MACHINE", p::CHARACTERISTIC_32BIT_MACHINE as u64, 0x0100),
    ("CHARACTERISTIC_DEBUG_STRIPPED", p::CHARACTERISTIC_DEBUG_STRIPPED as u64, 0x0200),
    ("CHARACTERISTIC_REMOVABLE_RUN_FROM_SWAP", p::CHARACTERISTIC_REMOVABLE_RUN_FROM_SWAP as u64, 0x0400),
    ("CHARACTERISTIC_NET_RUN_FROM_SWAP", p::CHARACTERISTIC_NET_RUN_FROM_SWAP as u64, 0x0800),
    ("CHARACTERISTIC_SYSTEM", p::CHARACTERISTIC_SYSTEM as u64, 0x1000),
    ("CHARACTERISTIC_DLL", p::CHARACTERISTIC_DLL as u64, 0x2000),
    ("CHARACTERISTIC_UP_SYSTEM_ONLY", p::CHARACTERISTIC_UP_SYSTEM_ONLY as u64, 0x4000),
    ("CHARACTERISTIC_BYTES_REVERSED_HI", p::CHARACTERISTIC_BYTES_REVERSED_HI as u64, 0x8000),
    ("DATA_DIRECTORY_EXPORT_TABLE", p::DATA_DIRECTORY_EXPORT_TABLE as u64, 0),
    ("DATA_DIRECTORY_IMPORT_TABLE", p::DATA_DIRECTORY_IMPORT_TABLE as u64, 1),
    ("DATA_DIRECTORY_RESOURCE_TABLE", p::DATA_DIRECTORY_RESOURCE_TABLE as u64, 2),
    ("DATA_DIRECTORY_EXCEPTION_TABLE", p::DATA_DIRECTORY_EXCEPTION_TABLE as u64, 3),
    ("DATA_DIRECTORY_CERTIFICATE_TABLE", p::DATA_DIRECTORY_CERTIFICATE_TABLE as u64, 4),
    ("DATA_DIRECTORY_BASE_RELOCATION_TABLE", p::DATA_DIRECTORY_BASE_RELOCATION_TABLE as u64, 5),
    ("DATA_DIRECTORY_DEBUG", p::DATA_DIRECTORY_DEBUG as u64, 6),
    ("DATA_DIRECTORY_ARCHITECTURE", p::DATA_DIRECTORY_ARCHITECTURE as u64, 7),
    ("DATA_DIRECTORY_GLOBAL_PTR", p::DATA_DIRECTORY_GLOBAL_PTR as u64, 8),
    ("DATA_DIRECTORY_TLS_TABLE", p::DATA_DIRECTORY_TLS_TABLE as u64, 9),
    ("DATA_DIRECTORY_LOAD_CONFIG_TABLE", p::DATA_DIRECTORY_LOAD_CONFIG_TABLE as u64, 10),
    ("DATA_DIRECTORY_BOUND_IMPORT", p::DATA_DIRECTORY_BOUND_IMPORT as u64, 11),
    ("DATA_DIRECTORY_IAT", p::DATA_DIRECTORY_IAT as u64, 12),
    ("DATA_DIRECTORY_DELAY_IMPORT_DESCRIPTOR", p::DATA_DIRECTORY_DELAY_IMPORT_DESCRIPTOR as u64, 13),
    ("DATA_DIRECTORY_CLR_RUNTIME_HEADER", p::DATA_DIRECTORY_CLR_RUNTIME_HEADER as u64, 14),
    ("DLL_CHARACTERISTIC_HIGH_ENTROPY_VA", p::DLL_CHARACTERISTIC_HIGH_ENTROPY_VA as u64, 0x0020),
    ("DLL_CHARACTERISTIC_DYNAMIC_BASE", p::DLL_CHARACTERISTIC_DYNAMIC_BASE as u64, 0x0040),
    ("DLL_CHARACTERISTIC_FORCE_INTEGRITY", p::DLL_CHARACTERISTIC_FORCE_INTEGRITY as u64, 0x0080),
    ("DLL_CHARACTERISTIC_NX_COMPAT", p::DLL_CHARACTERISTIC_NX_COMPAT as u64, 0x0100),
    ("DLL_CHARACTERISTIC_NO_ISOLATION", p::DLL_CHARACTERISTIC_NO_ISOLATION as u64, 0x0200),
    ("DLL_CHARACTERISTIC_NO_SEH", p::DLL_CHARACTERISTIC_NO_SEH as u64, 0x0400),
    ("DLL_CHARACTERISTIC_NO_BIND", p::DLL_CHARACTERISTIC_NO_BIND as u64, 0x0800),
    ("DLL_CHARACTERISTIC_APPCONTAINER", p::DLL_CHARACTERISTIC_APPCONTAINER as u64, 0x1000),
    ("DLL_CHARACTERISTIC_WDM_DRIVER", p::DLL_CHARACTERISTIC_WDM_DRIVER as u64, 0x2000),
    ("DLL_CHARACTERISTIC_GUARD_CF", p::DLL_CHARACTERISTIC_GUARD_CF as u64, 0x4000),
    ("DLL_CHARACTERISTIC_TERMINAL_SERVER_AWARE", p::DLL_CHARACTERISTIC_TERMINAL_SERVER_AWARE as u64, 0x8000),
    ("MACHINE_UNKNOWN", p::MACHINE_UNKNOWN as u64, 0x0000),
    ("MACHINE_AM33", p::MACHINE_AM33 as u64, 0x01d3),
    ("MACHINE_AMD64", p::MACHINE_AMD64 as u64, 0x8664),
    ("MACHINE_ARM", p::MACHINE_ARM as u64, 0x01c0),
    ("MACHINE_ARM64", p::MACHINE_ARM64 as u64, 0xaa64),
    ("MACHINE_ARMNT", p::MACHINE_ARMNT as u64, 0x01c4),
    ("MACHINE_EBC", p::MACHINE_EBC as u64, 0x0ebc),
    ("MACHINE_I386", p::MACHINE_I386 as u64, 0x014c),
    ("MACHINE_IA64", p::MACHINE_IA64 as u64, 0x0200),
    ("MACHINE_LOONGARCH32", p::MACHINE_LOONGARCH32 as u64, 0x6232),
    ("MACHINE_LOONGARCH64", p::MACHINE_LOONGARCH64 as u64, 0x6264),
    ("MACHINE_M32R", p::MACHINE_M32R as u64, 0x9041),
    ("MACHINE_MIPS16", p::MACHINE_MIPS16 as u64, 0x0266),
    ("MACHINE_MIPSFPU", p::MACHINE_MIPSFPU as u64, 0x0366),
    ("MACHINE_MIPSFPU16", p::MACHINE_MIPSFPU16 as u64, 0x0466),
    ("MACHINE_POWERPC", p::MACHINE_POWERPC as u64, 0x01f0),
    ("MACHINE_POWERPCFP", p::MACHINE_POWERPCFP as u64, 0x01f1),
    ("MACHINE_R4000", p::MACHINE_R4000 as u64, 0x0166),
    ("MACHINE_RISCV32", p::MACHINE_RISCV32 as u64, 0x5032),
    ("MACHINE_RISCV64", p::MACHINE_RISCV64 as u64, 0x5064),
    ("MACHINE_RISCV128", p::MACHINE_RISCV128 as u64, 0x5128),
    ("MACHINE_SH3", p::MACHINE_SH3 as u64, 0x01a2),
    ("MACHINE_SH3DSP", p::MACHINE_SH3DSP as u64, 0x01a3),
    ("MACHINE_SH4", p::MACHINE_SH4 as u64, 0x01a6),
    ("MACHINE_SH5", p::MACHINE_SH5 as u64, 0x01a8),
    ("MACHINE_THUMB", p::MACHINE_THUMB as u64, 0x01c2),
    ("MACHINE_WCEMIPSV2", p::MACHINE_WCEMIPSV2 as u64, 0x0169),
    ("SECTION_CHARACTERISTIC_TYPE_NO_PAD", p::SECTION_CHARACTERISTIC_TYPE_NO_PAD as u64, 0x00000008),
    ("SECTION_CHARACTERISTIC_CNT_CODE", p::SECTION_CHARACTERISTIC_CNT_CODE as u64, 0x00000020),
    ("SECTION_CHARACTERISTIC_CNT_INITIALIZED_DATA", p::SECTION_CHARACTERISTIC_CNT_INITIALIZED_DATA as u64, 0x00000040),
    ("SECTION_CHARACTERISTIC_CNT_UNINITIALIZED_DATA", p::SECTION_CHARACTERISTIC_CNT_UNINITIALIZED_DATA as u64, 0x00000080),
    ("SECTION_CHARACTERISTIC_LNK_OTHER", p::SECTION_CHARACTERISTIC_LNK_OTHER as u64, 0x00000100),
    ("SECTION_CHARACTERISTIC_LNK_INFO", p::SECTION_CHARACTERISTIC_LNK_INFO as u64, 0x00000200),
    ("SECTION_CHARACTERISTIC_LNK_REMOVE", p::SECTION_CHARACTERISTIC_LNK_REMOVE as u64, 0x00000800),
    ("SECTION_CHARACTERISTIC_LNK_COMDAT", p::SECTION_CHARACTERISTIC_LNK_COMDAT as u64, 0x00001000),
    ("SECTION_CHARACTERISTIC_GPREL", p::SECTION_CHARACTERISTIC_GPREL as u64, 0x00008000),
    ("SECTION_CHARACTERISTIC_MEM_PURGEABLE", p::SECTION_CHARACTERISTIC_MEM_PURGEABLE as u64, 0x00020000),
    ("SECTION_CHARACTERISTIC_MEM_16BIT", p::SECTION_CHARACTERISTIC_MEM_16BIT as u64, 0x00020000),
    ("SECTION_CHARACTERISTIC_MEM_LOCKED", p::SECTION_CHARACTERISTIC_MEM_LOCKED as u64, 0x00040000),
    ("SECTION_CHARACTERISTIC_MEM_PRELOAD", p::SECTION_CHARACTERISTIC_MEM_PRELOAD as u64, 0x00080000),
    ("SECTION_CHARACTERISTIC_ALIGN_1BYTES", p::SECTION_CHARACTERISTIC_ALIGN_1BYTES as u64, 0x00100000),
    ("SECTION_CHARACTERISTIC_ALIGN_2BYTES", p::SECTION_CHARACTERISTIC_ALIGN_2BYTES as u64, 0x00200000),
    ("SECTION_CHARACTERISTIC_ALIGN_4BYTES", p::SECTION_CHARACTERISTIC_ALIGN_4BYTES as u64, 0x00300000),
    ("SECTION_CHARACTERISTIC_ALIGN_8BYTES", p::SECTION_CHARACTERISTIC_ALIGN_8BYTES as u64, 0x00400000),
    ("SECTION_CHARACTERISTIC_ALIGN_16BYTES", p::SECTION_CHARACTERISTIC_ALIGN_16BYTES as u64, 0x00500000),
    ("SECTION_CHARACTERISTIC_ALIGN_32BYTES", p::SECTION_CHARACTERISTIC_ALIGN_32BYTES as u64, 0x00600000),
    ("SECTION_CHARACTERISTIC_ALIGN_64BYTES", p::SECTION_CHARACTERISTIC_ALIGN_64BYTES as u64, 0x00700000),
    ("SECTION_CHARACTERISTIC_ALIGN_128BYTES", p::SECTION_CHARACTERISTIC_ALIGN_128BYTES as u64, 0x00800000),
    ("SECTION_CHARACTERISTIC_ALIGN_256BYTES", p::SECTION_CHARACTERISTIC_ALIGN_256BYTES as u64, 0x00900000),
    ("SECTION_CHARACTERISTIC_ALIGN_512BYTES", p::SECTION_CHARACTERISTIC_ALIGN_512BYTES as u64, 0x00a00000),
    ("SECTION_CHARACTERISTIC_ALIGN_1024BYTES", p::SECTION_CHARACTERISTIC_ALIGN_1024BYTES as u64, 0x00b00000),
    ("SECTION_CHARACTERISTIC_ALIGN_2048BYTES", p::SECTION_CHARACTERISTIC_ALIGN_2048BYTES as u64, 0x00c00000),
    ("SECTION_CHARACTERISTIC_ALIGN_4096BYTES", p::SECTION_CHARACTERISTIC_ALIGN_4096BYTES as u64, 0x00d00000),
    ("SECTION_CHARACTERISTIC_ALIGN_8192BYTES", p::SECTION_CHARACTERISTIC_ALIGN_8192BYTES as u64, 0x00e00000),
    ("SECTION_CHARACTERISTIC_LNK_NRELOC_OVFL", p::SECTION_CHARACTERISTIC_LNK_NRELOC_OVFL as u64, 0x01000000),
    ("SECTION_CHARACTERISTIC_MEM_DISCARDABLE", p::SECTION_CHARACTERISTIC_MEM_DISCARDABLE as u64, 0x02000000),
    ("SECTION_CHARACTERISTIC_MEM_NOT_CACHED", p::SECTION_CHARACTERISTIC_MEM_NOT_CACHED as u64, 0x04000000),
    ("SECTION_CHARACTERISTIC_MEM_NOT_PAGED", p::SECTION_CHARACTERISTIC_MEM_NOT_PAGED as u64, 0x08000000),
    ("SECTION_CHARACTERISTIC_MEM_SHARED", p::SECTION_CHARACTERISTIC_MEM_SHARED as u64, 0x10000000),
    ("SECTION_CHARACTERISTIC_MEM_EXECUTE", p::SECTION_CHARACTERISTIC_MEM_EXECUTE as u64, 0x20000000),
    ("SECTION_CHARACTERISTIC_MEM_READ", p::SECTION_CHARACTERISTIC_MEM_READ as u64, 0x40000000),
    ("SECTION_CHARACTERISTIC_MEM_WRITE", p::SECTION_CHARACTERISTIC_MEM_WRITE as u64, 0x80000000),
    ("SUBSYSTEM_UNKNOWN", p::SUBSYSTEM_UNKNOWN as u64, 0x0000),
    ("SUBSYSTEM_NATIVE", p::SUBSYSTEM_NATIVE as u64, 0x0001),
    ("SUBSYSTEM_WINDOWS_GUI", p::SUBSYSTEM_WINDOWS_GUI as u64, 0x0002),
    ("SUBSYSTEM_WINDOWS_CUI", p::SUBSYSTEM_WINDOWS_CUI as u64, 0x0003),
    ("SUBSYSTEM_OS2_CUI", p::SUBSYSTEM_OS2_CUI as u64, 0x0005),
    ("SUBSYSTEM_POSIX_CUI", p::SUBSYSTEM_POSIX_CUI as u64, 0x0007),
    ("SUBSYSTEM_NATIVE_WINDOWS", p::SUBSYSTEM_NATIVE_WINDOWS as u64, 0x0008),
    ("SUBSYSTEM_WINDOWS_CE_GUI", p::SUBSYSTEM_WINDOWS_CE_GUI as u64, 0x0009),
    ("SUBSYSTEM_EFI_APPLICATION", p::SUBSYSTEM_EFI_APPLICATION as u64, 0x000a),
    ("SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER", p::SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER as u64, 0x000b),
    ("SUBSYSTEM_EFI_RUNTIME_DRIVER", p::SUBSYSTEM_EFI_RUNTIME_DRIVER as u64, 0x000c),
    ("SUBSYSTEM_EFI_ROM", p::SUBSYSTEM_EFI_ROM as u64, 0x000d),
    ("SUBSYSTEM_XBOX", p::SUBSYSTEM_XBOX as u64, 0x000e),
    ("SUBSYSTEM_WINDOWS_BOOT_APPLICATION", p::SUBSYSTEM_WINDOWS_BOOT_APPLICATION as u64, 0x0010),
];

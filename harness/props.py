ASSUME = [
    "Repository sources are compiled unmodified (gcc, -DPC) with printf logging silenced, AddressSanitizer, "
    "bounds/null/division checks and red zones around every block of the system allocator.",
    "Two's complement wrap-around for signed overflow (-fwrapv), as in the shipped unoptimised build.",
    "The window/renderer (graphics/pc, main.c) is replaced by a stub; time advances only when the program sleeps.",
]
PROPS = {
    "C01": {},
    "C02": {},
    "C03": {},
    "C04": {},
    "C06": {},
    "C07": {},
    "C08": {},
    "C09": {},
    "C10": {},
    "C05": {},
    "C11": {},
    "C12": {},
    "C14": {"wraps": ["time"]},
    "C13": {"main": True, "san": ["-fsanitize=thread", "-fno-omit-frame-pointer", "-fno-common"], "own_san": ["-fno-common"], "repo_flags": ["-O0"],
            "wraps": ["mtx_lock","mtx_unlock","mtx_trylock","thrd_create","thrd_join","init_system","init_memory","free_system","free_memory","fopen","fclose","set_inkey","get_inkey","set_input","set_touch","press_key","step_sprites","step_background","inc_time","tokenize_full"]},
    "C21": {"wraps": ["time","cmd_goto","cmd_gosub","cmd_on","cmd_next","cmd_return","cmd_if","cmd_run","cmd_exec"]},
    "C22": {"ldflags": ["-lm"]},
    "C23": {},
    "C24": {},
    "C15": {},
    "C16": {},
    "C17": {},
    "C18": {},
    "C19": {"wraps": ["fopen","open","rename","remove","unlink"]},
    "C20": {},
    "C25": {},
    "C27": {"display": True, "fast": ["c27.c"], "assume": ["CSFML and the palette shader are replaced by a software implementation (harness/soft.h) that rasterises at 256x384; scaled or turned sprites are compared to within two pixels."]},
    "C28": {"plain": ["util/ntr_to_ptc.c"], "own": [], "repo_flags": ["-Dmain=ntr_main", "-Dexit=ntr_exit", "-Dperror=ntr_perror"], "basewraps": ["fopen"], "asan": ":max_allocation_size_mb=1024"},
    "C29": {"main": True, "wraps": ["thrd_create","thrd_join","init_system","init_memory","free_system","free_memory","fopen","fclose"]},
    "C26": {"wraps": ["rand"]},
}

# Source of properties.jsonl and MANIFEST.json (tools/gen.py writes both).
S="source/"; I=S+"interpreter/"; U=S+"subsystem/"; X=S+"extension/"
def P(id,title,st,over,q,why,files,mech,note=None,state=None):
    return dict(id=id,title=title,statement=st,over=over,q=q,why=why,files=files,mech=mech,note=note,state=state)
PROPS=[
P("C01","Numeric expressions follow fixed-point arithmetic, precedence and error rules",
"Every numeric expression evaluates to the value given by 20.12 fixed-point arithmetic with the language's operator precedence, left-to-right evaluation and parentheses, however it is written (literals, variables, array elements, functions, any operator mix). When a result does not fit or a divisor is zero, the statement ends with exactly the overflow or division-by-zero error and the assignment's target keeps its old value; no expression wraps, traps or crashes.",
["inputs","programs"],"all expressions over all operators, operand kinds, nestings and all 32-bit operand values",
"tests evaluate a few dozen fixed expressions with small operands; they do not reach operator combinations, prefix operators after each kind of operand, or values at the range limits",
[I+"operators.c",I+"tokens.c",I+"runner.c"],
[("precedence climbing in the tokenizer","source/interpreter/tokens.c eval/tok_prio"),("checked operators","source/interpreter/operators.c")]),
P("C02","Numbers survive conversion to text and back",
"Printing or converting any representable number to text and reading that text back (as a literal, with VAL, or from hexadecimal) gives the same number up to the three printed decimals, and any numeric literal means its decimal value truncated to the fixed-point grid. A base prefix without a digit is an error. Text that denotes no number or a number out of range gives zero or an overflow error as documented, never a wrapped value or data left over from earlier statements.",
["inputs"],"all 2^32 numbers and all texts of digits, dots, signs and base prefixes",
"a test loops over integers only; decimals, rounding carries, extreme values, long digit strings and malformed text are not sampled",
[I+"strs.c",I+"strfuncs.c",I+"tokens.c"],
[("fixp_to_char / str_to_number","source/interpreter/strs.c"),("func_val, func_str, func_hex","source/interpreter/strfuncs.c")]),
P("C03","Control flow executes exactly the statements the program text prescribes",
"For every program built from FOR/TO/STEP/NEXT, IF/THEN/ELSE, GOTO, GOSUB/RETURN, ON, labels, END and STOP, the sequence of executed statements is the one prescribed by the text: loops run the right number of times (including zero) and leave nothing behind, IF selects exactly one branch, jumps go to the named label and RETURN goes to the statement after its GOSUB. A NEXT, RETURN or jump that has no target ends the program with its documented error and no other effect.",
["programs"],"all programs over these statements, all nestings, jumps into and out of loops and subroutines",
"tests run some thirty fixed programs; combinations of nesting, early exits, zero-trip loops and computed jumps are combinatorial",
[I+"flow.c",I+"runner.c",I+"label.c"],
[("call stack of loop and subroutine entries","source/interpreter/flow.c"),("loop entry check and skip","source/interpreter/runner.c BC_BEGIN_LOOP"),("label table","source/interpreter/label.c")]),
P("C04","Variables are independent, persistent and strictly typed",
"A variable holds the last value assigned to it until it is assigned again or cleared, whatever other names are created, up to the variable capacity; names that differ in spelling, in type suffix or in being an array never share storage. A new variable starts at 0 or the empty string, FREEVAR reports how many more variables can be created, exhausting the capacity gives an out-of-memory error, and CLEAR leaves none of the old values behind.",
["histories","inputs"],"all sequences of creating, assigning and clearing variables with all names, up to and past the capacity",
"tests create a handful of names; collisions, probing chains and the full table are not reached",
[I+"vars.c",U+"variables.c",I+"runner.c"],
[("hashed variable table","source/interpreter/vars.c get_var")]),
P("C05","Every tokenizer mode gives a program the same behaviour",
"Running a program compiled with variable slots resolved at compile time has exactly the same observable behaviour (output, variables, error) as running the same program compiled with names looked up at run time, and a program stored as a program and RUN behaves like the same lines given directly. White space, the letter case of keywords, statement separators and abbreviated forms of a statement do not change its meaning.",
["programs","configurations"],"all programs and all compile modes",
"each test uses a single mode for a single program; equivalence over programs is never compared",
[I+"tokens.c",I+"runner.c",I+"program.c"],
[("tokenizer options","source/interpreter/tokens.c tokenize_full")]),
P("C06","Strings are values and their storage is always reclaimed",
"Assigning, passing, swapping or storing a string copies its value: a later change to one variable or element never changes another, and literals never change. Storage of strings no longer reachable from a variable is available again, so a program may run string statements forever without running out of memory, including statements that end in an error; when memory really is exhausted the statement reports out of memory and every existing string keeps its value.",
["histories","programs"],"all histories of string statements of any length",
"tests run short fixed programs; leaks and aliasing need specific sequences and only show after hundreds of repetitions",
[I+"strs.c",I+"vars.c",I+"operators.c",I+"strfuncs.c"],
[("use counts of string slots","source/interpreter/strs.c get_new_str/free")]),
P("C07","String functions and comparisons return exactly the documented text",
"LEFT$, RIGHT$, MID$, SUBST$, INSTR, LEN, ASC, CHR$, string repetition, concatenation and all six string comparisons return exactly the documented result for every string and every position, count and code argument. Arguments outside the documented domain, or results longer than 256 characters, are reported as an error without touching any other data.",
["inputs"],"all strings up to the maximum length and all numeric arguments",
"tests use a few strings with in-range arguments; boundary positions, empty strings, maximal lengths and negative or huge arguments are not covered",
[I+"strfuncs.c",I+"operators.c",I+"strs.c"],
[("string functions","source/interpreter/strfuncs.c")]),
P("C08","Arrays keep every element separate and check every index",
"An array of any legal size stores one independent value per index combination, initially 0 or the empty string, and reading or writing an element never affects another element, variable or array. An index or size outside the legal range, a second index on a one-dimensional array, more than two or no indexes, redefinition or lack of memory ends the statement with an error and changes nothing. FREEMEM reports the memory left for elements in whole kilobytes, to within one.",
["inputs","histories"],"all dimensions, all index values and all sequences of DIM, access and CLEAR",
"tests use small arrays with valid indexes; illegal and extreme indexes, and interaction of many arrays, are not explored",
[I+"arrays.c",I+"vars.c",I+"runner.c"],
[("bump allocated array memory","source/interpreter/arrays.c"),("index check","source/interpreter/vars.c get_arr_entry")]),
P("C09","SORT and RSORT order the given range and permute companions alike",
"After SORT (RSORT) of a range of an array, the elements of the range are in ascending (descending) order and are a permutation of the previous elements, every companion array has been permuted by the same permutation, and nothing outside the range has changed. Illegal ranges or arguments are reported as errors and change nothing.",
["inputs"],"all array contents, ranges, element types and numbers of companion arrays",
"two fixed arrays are sorted in tests; sorting errors depend on the particular order and duplicates",
[I+"arrays.c",I+"data.c"],
[("cmd_sort / cmd_rsort","source/interpreter/data.c")]),
P("C10","READ delivers DATA items in program order, RESTORE repositions exactly",
"READ assigns the DATA items of the program one after another in source order, whatever other statements surround or separate the DATA lines, converting each to the variable's type; RESTORE continues with the first item at or after the given label. Reading past the last item or into the wrong type ends the statement with its documented error and disturbs nothing else.",
["programs"],"all arrangements of DATA, labels and other statements, and all READ/RESTORE sequences",
"tests use a few layouts; the position after each combination of multi-variable READ, RESTORE and exhaustion is combinatorial",
[I+"data.c",I+"runner.c",I+"tokens.c"],
[("DATA cursor","source/interpreter/data.c")]),
P("C11","The text screen always shows what the output statements prescribe",
"After any sequence of PRINT, LOCATE, COLOR, CLS, ACLS and TABSTEP changes, the characters, colours and cursor position of the 32x24 text screen are exactly those prescribed by the sequence: items separated by ; are adjacent, by , at the next tab stop, lines wrap at 32 columns, and output below the last line scrolls everything up by one. LOCATE to a position off the screen leaves the cursor where it is, colours out of range are errors that change nothing, no output touches anything outside the screen, and CHKCHR reports what is displayed (-1 off the screen). PNLSTR writes on one line of the lower screen, cut at its right edge.",
["histories","inputs"],"all sequences of screen statements with all arguments and texts",
"tests print a few short texts; wrap, scroll and tab behaviour at the screen edges needs specific cursor positions",
[U+"console.c"],
[("con_put, con_newline, cmd_print, cmd_locate","source/subsystem/console.c")]),
P("C12","INPUT and LINPUT deliver exactly what the user typed and edited",
"For every sequence of keys, including editing keys, INPUT and LINPUT assign to their variables exactly the text shown as entered when the line is confirmed, converted to each variable's type, asking again when the entry does not fit and never changing variables before then. Editing never alters anything on the screen outside the entry field, and no sequence of keys can crash or hang the program.",
["histories","inputs"],"all key sequences of any length, all prompts and variable lists",
"tests feed two fixed lines; editing sequences and field limits are combinatorial",
[U+"console.c",U+"input.c"],
[("shared_input","source/subsystem/console.c")]),
P("C13","Keys, touches and BREAK from the window thread are never lost or torn",
"Whatever the interleaving of the window thread (keys, buttons, touches, time, the movement of sprites and backgrounds) with the running program, every result is one that some order of whole instructions and whole steps of the window thread also gives. Each typed key is received exactly once in the order of typing, and refused only while 256 keys wait; an editing key pressed for one frame counts at most once. BREAK (SELECT or the ESC key) always ends a running program with a break, closing the window always ends the program and the system, and neither thread can deadlock or crash. A character typed on the host keyboard that has a code arrives as this character, any other does not arrive.",
["schedules"],"all interleavings of the window thread and the program thread",
"tests are single threaded; a lost update or a swallowed break needs a specific interleaving",
[U+"input.c","source/system.c",I+"runner.c",I+"flow.c"],
[("key buffer and mutexes","source/subsystem/input.c"),("error cell polled by the interpreter","source/interpreter/runner.c")]),
P("C14","Button functions report presses, releases and repeats exactly",
"BUTTON and BTRIG report for every history of button states exactly the pressed, newly pressed, repeated and released buttons of the current frame in each mode, and BREPEAT sets the start and interval of repetition of exactly the chosen button. VSYNC and WAIT advance exactly the given number of frames whatever the frame counter holds, end early only for BREAK, and MAINCNTL and MAINCNTH advance by one each frame. TCHST, TCHX, TCHY and TCHTIME report the current touch, its last position and how many frames it has lasted, and TIME$ and DATE$ the time and date of the clock. Illegal arguments are errors that change nothing.",
["histories"],"all histories of button states, frame steps and repeat settings",
"a test checks a handful of frames; repeat and release timing depends on the whole history",
[U+"input.c","source/system.c"],
[("button history","source/subsystem/input.c")]),
P("C15","Background layers hold exactly what the BG statements put there",
"After any sequence of BGPUT, BGFILL, BGCOPY, BGCLR, BGPAGE, BGOFS and BGCLIP each cell of both layers of both screens holds exactly the tile, palette and flips last put there, BGREAD reads them back in every form. Cell positions of BGPUT and BGREAD wrap around the 64x64 layer, corners of BGFILL and BGCOPY are limited to it, a copy that overlaps itself moves the original cells, and cells copied past its edge are dropped. Scrolling with a time passes evenly from the present position to its target and reaches it in exactly that many frames, a new BGOFS replaces a running one, and BGCHK is TRUE exactly while it runs. Nothing outside the addressed layer changes and illegal arguments are errors that change nothing.",
["histories","inputs"],"all sequences of background statements with all arguments",
"tests check a few single calls; overlapping copies, wrapping regions and invalid arguments are not explored",
[U+"background.c"],
[("BG commands","source/subsystem/background.c")]),
P("C16","Graphics statements change exactly the pixels they describe",
"After any sequence of GPSET, GLINE, GBOX, GFILL, GCIRCLE, GPAINT, GPUTCHR, GCOPY, GCLS, GCOLOR, GDRAWMD and GPAGE, each pixel of each page equals what drawing those shapes pixel by pixel gives, clipped at the 256x192 page, and GSPOIT reads it back (-1 off the page). Corners of boxes may be given in any order; a line passes within half a pixel of the ideal one and contains its end points, a circle is a closed outline close to its radius; GPAINT fills exactly the connected region of the start's colour, or up to the border colour (or fails with a paint stack error having painted only part of it); GCOPY moves the original pixels also when areas overlap, leaving out colour 0 in mode 0; GPUTCHR draws the non-zero pixels of the character enlarged and copies the palette used. With GDRAWMD on every pixel of a point, box, line, circle or character is combined exactly once. Shapes partly or wholly off the page never change other memory, and illegal arguments are errors that change nothing.",
["histories","inputs"],"all sequences of graphics statements with all coordinates, colours, modes and pages",
"tests draw a few fixed shapes; clipping and degenerate shapes at page borders are input-specific",
[U+"graphics.c"],
[("drawing commands","source/subsystem/graphics.c")]),
P("C17","Sprite statements and animation update exactly the addressed sprite",
"After any sequence of sprite statements and frame steps, each sprite of each screen has exactly the position, angle, scale, image, animation phase, collision box and registers prescribed by the statements addressed to it; timed moves, turns and scalings pass evenly from the present value and reach their target exactly in the given number of frames (a turn goes the way of decreasing angles, with direction -1 of increasing ones), a new one replaces the running one, and animations change image at exactly the given intervals, by as many characters as the sprite's size takes, and stop on their last image after the given number of rounds. SPCHK reports exactly the timed changes in progress and SPREAD the present values; SPCHR shows the new image at once. Sprites have one of the twelve existing sizes. Statements to undefined or out-of-range sprites (SPCLR, SPSET, SPCHK and the hit functions accept undefined ones), and illegal arguments, are errors that change nothing, and no sprite's activity affects another.",
["histories"],"all sequences of sprite statements and frame steps over all sprites",
"tests step one sprite a few frames; interactions of several sprites, re-targeting during motion and page switches are histories",
[U+"sprites.c"],
[("sprite table and step","source/subsystem/sprites.c")]),
P("C18","Sprite collision reports exactly the overlapping sprites",
"SPHIT and SPHITSP report a collision exactly when the collision boxes of two defined sprites of the addressed screen with common mask bits meet, touching included, wherever the sprites are. A box is as SPCOL set it, scaled with the sprite only if SPCOL's scale flag says so; sprites that move (by SPCOLVEC, or else by a timed SPOFS still in progress) meet if their boxes meet anywhere on one frame's movement. SPHITNO is the number of the first such sprite from the start number given to SPHIT. The answer is symmetric in the two sprites and independent of all others.",
["inputs","histories"],"all positions, boxes, scales, masks and sprite sets",
"tests use two configurations; off-by-one overlaps and masks are input-specific",
[U+"sprites.c"],
[("collision test","source/subsystem/sprites.c")]),
P("C19","Files are saved and loaded whole, inside their folder, with a true RESULT",
"Whatever SAVE writes, LOAD of the same name and type restores exactly, for every program text, variable text and resource, and RESULT is TRUE exactly when the operation fully succeeded, also when the disk is full, files are truncated, corrupted or of another type. A failed or refused operation leaves the program, resources and existing files as they were, and no name given to a file statement reads or writes outside the program folder. FILES lists the names of exactly the files there that can be named, one per line.",
["fault_sequences","inputs","histories"],"all contents, names and types, and every failing or short input/output operation",
"tests load a few valid files; I/O failures, damaged files and hostile names are not exercised",
[U+"resources.c",I+"program.c",X+"compress.c"],
[("file statements","source/subsystem/resources.c"),("load_program","source/interpreter/program.c")]),
P("C20","Compressed data always decompresses to the original and never overruns",
"Compressing any resource and decompressing the result gives back the original bytes, and the compressed form is used only if it fits the buffer. Decompressing arbitrary, truncated or damaged data never reads or writes outside the given buffers and reports failure instead of success.",
["inputs"],"all byte sequences of all sizes and all damaged compressed streams",
"tests do not decompress damaged data and compress a few fixed inputs",
[X+"compress.c"],
[("compression","source/extension/compress.c")]),
P("C21","Any text can be compiled: a program or a clean error, never corruption",
"For every text, well formed or not, and in every compilation mode, compiling ends with a runnable program or a reported error, without reading outside the text, writing outside the code, line and label space or hanging, and running whatever it produced also ends normally, with an error, or loops as the text prescribes. Unless every error is to be reported at once, a line that cannot be compiled stops the program with its error when it is reached: the lines before it take effect, nothing of it or after it does. When errors are reported at once (strict), the same error is reported, together with the text of the offending line. A valid program behaves the same in every mode, with or without a final line end, and when stored and started with RUN or EXEC. A program that fits the available space is not refused for lack of it, one that does not is refused cleanly. Whatever text was compiled and run, the system can compile and run the next program correctly, with nothing left on its stacks and no string lost.",
["inputs","programs"],"all texts over all characters and tokens",
"tests compile well-formed lines; malformed and extreme texts are unbounded",
[I+"tokens.c",I+"runner.c"],
[("tokenizer and expression parser","source/interpreter/tokens.c")]),
P("C22","An error stops only the failing program and leaves the system intact",
"For every statement and function and every number, kind and value of arguments, execution either performs its documented effect or ends with an error; it never crashes, hangs, corrupts memory or leaves state that changes the meaning of the statements run afterwards. Argument counts and kinds that fit no form of a statement are rejected, and a statement rejected for its arguments has no effect (text already printed, files written and values already read or assigned apart). System variables that are read-only cannot be changed; writable ones accept exactly their documented range and read back the value in effect. Each is accepted wherever a value of its kind is, and nowhere else. The system starts whatever the editor's program file contains, and no part of a damaged one becomes a program. In direct mode, after any error, break or exhaustion of variables or strings the prompt accepts the next line and runs it exactly once, a break at the prompt runs nothing, the message shown is that of the error, and CLEAR makes all variable memory available again.",
["inputs","histories"],"all statements, functions and system variables with all argument lists",
"tests call each statement with a few valid arguments; invalid types, counts and extreme values are not covered",
[I+"runner.c",U+"sysvars.c",U+"variables.c",I+"stack.c"],
[("argument access","source/interpreter/stack.h"),("system variable checks","source/subsystem/sysvars.c")]),
P("C23","Colours and character images read back exactly as set",
"COLSET and CHRSET change exactly the addressed palette entry or character image and COLREAD and CHRREAD return exactly what was set (colours as the display holds them: 5, 6 and 5 bits per channel), for every resource name, bank, index and legal value; COLINIT and CHRINIT restore exactly the addressed items to their initial content. After the start every bank and palette holds its default file, whole, or nothing if that is missing or damaged. Illegal names, indexes and strings are errors that change nothing.",
["inputs","histories"],"all resource names, indexes and data strings, all sequences of set, read and init",
"tests check name lookups and a few values; bank and page selection and malformed strings are not enumerated",
[U+"resources.c"],
[("resource naming","source/subsystem/resources.c")]),
P("C24","The memory extension confines every access to the system's own memory",
"With MEMSAFE on, PEEK and POKE in every width, MEMCOPY and MEMFILL read and write exactly the addressed bytes of the exposed memory, little endian, ADDR gives addresses (PTR$ their hexadecimal text) through which a named variable or resource is read and changed. Accesses that are not entirely inside the exposed memory are refused with an error and change nothing; the null address is an error with MEMSAFE off as well.",
["inputs","histories"],"all addresses, sizes, widths and values, and all sequences of accesses",
"no test covers the extension's boundaries; off-by-width errors occur only at specific addresses",
[X+"sbc_memory.c",X+"sbc_blockalloc.c"],
[("address check","source/extension/sbc_memory.c")]),
P("C25","The touch keyboard, function keys and icons act as displayed",
"For every history of touches, each touch of a displayed key delivers exactly the characters shown on that key in the current layout and shift state, in its first frame and in every fifth from the 31st on; a touch acts on the first key it meets and ends when it leaves it. Shift holds for the next character, caps lock and layout keys until pressed again, the escape key breaks, function keys deliver their assigned text, and touches elsewhere deliver nothing; INKEY$ returns the delivered characters in order. KEYBOARD, FUNCNO and ICONCHK report the key, function key or displayed icon pressed in exactly those frames, and the page buttons move ICONPAGE by one within 0 and ICONPMAX while ICONPUSE is set. PNLTYPE, KEY, ICONSET, ICONCLR and PNLSTR set exactly what is displayed and reported, the key images shown are always those of the layout and shift state in effect, and INPUT shows the alphabet keyboard and then puts the panel back. Illegal arguments are errors that change nothing (PNLSTR off the screen does nothing).",
["histories"],"all histories of touches, layouts, shift states and panel statements",
"no test simulates sequences of touches; shift, lock and repeat logic is stateful",
[U+"panel.c",U+"input.c"],
[("key layout and touch mapping","source/subsystem/panel.c")]),
P("C26","Numeric functions return correct values or an error for every argument",
"ABS, SGN, FLOOR, SQR, SIN, COS, TAN, ATAN, EXP, LOG, POW, DEG, RAD, PI and RND return the mathematically exact result to within the fixed-point resolution (POW: of single precision; DEG and RAD: with PI taken as its fixed-point value) for every argument whose result is representable, and an error for every other argument, except that ABS(-524288) is -524288. RND(n) is a whole number from 0 to n-1 (0 for n=0, from -(|n|-1) to 0 for negative n), and no argument causes a crash or an arbitrary value.",
["inputs"],"all 2^32 argument values (and pairs) of each function",
"tests sample a few arguments; domain borders and overflow regions are missed",
[I+"mathptc.c"],
[("math functions","source/interpreter/mathptc.c")]),
P("C27","Each frame displays exactly the current state of both screens",
"Every pixel of each frame is the composition of the current state: from the back, on each screen graphics, sprites and background layers by their priorities, then the console (upper) or the panel, its keys and text (lower), then front graphics and sprites, the cursor while a line is entered, and the icons. Characters show the current image data in the palette of their cell, tiles are flipped and offset (also by negative and wrapping amounts) as the BG statements say, sprites show their present image at their place, home, size, flip, scale and angle, and a touched key is shown shifted. VISIBLE, GPRIO, GPAGE and PNLTYPE hide and order exactly the layers they name, lower screen graphics and sprites never appear over a keyboard. A change of a character, colour, cell, pixel or sprite by whatever statement, made at whatever moment of a frame, is shown at latest by the next frame, and any number of frames uses a constant amount of graphics objects.",
["inputs","histories","schedules"],"all states of the screens, and all points of a frame at which a statement of the program falls",
"there is no test of the renderer; offsets, flips, stale textures and changes that fall into a frame are specific combinations",
["source/graphics/pc/display_pc.c","source/graphics/pc/tilemap.c","source/graphics/pc/sprite.c",U+"panel.c",U+"resources.c"],
[("composition of a frame","source/graphics/pc/display_pc.c"),("refresh flags of characters and colours","source/subsystem/resources.c")]),
P("C28","The resource converter turns NTR files into exactly the PTC files they contain",
"For every well-formed NCGR file the converter writes, for each whole bank of 8192 bytes of its character data, one file named by the prefix and the number of the bank, and for every NCLR file of at least 256 colours one file of that name: exactly the type text followed by exactly the bytes of the bank (the first 512 bytes of the colours), replacing what was there. Everything else (another magic, a size that the file does not hold or that is smaller than its header, a truncated file, fewer colours, a name of another length, a wrong number of arguments, an input that cannot be opened or read) is refused without writing any file. It reports success only if every byte has reached its file, whichever read, write, open or close fails, and never reads or writes outside its buffers. (Character data of more than ten banks has no defined names.)",
["inputs","fault_sequences"],"all input files, names and failing operations",
"there is no test of the converter; sizes at the borders of headers and banks and failing operations need specific inputs",
["util/ntr_to_ptc.c"],
[("extraction of characters and colours","util/ntr_to_ptc.c")]),
P("C29","The window passes keys, mouse and time to the program as configured",
"In every frame BUTTON holds exactly the buttons whose keys of resources/config.txt are pressed in the present control scheme, and a frame in which its last key is pressed switches to the other scheme from then on; a newly pressed SELECT breaks. For every size of the window and position of the mouse, the left button touches exactly the point of the lower screen under the mouse, and no touch (nor panel key) lasts when the mouse is outside of it; TCHTIME counts the frames of the touch. A character typed on the host arrives, in order, as the character of the same code point if the system has it (ASCII, except backspace, return and escape, only while the first scheme is chosen); any other is ignored. Every byte of an automatic input file arrives as that character, once and in order, as fast as the program reads. Every frame advances MAINCNT, sprites and backgrounds by exactly one step, and closing the window ends the loop after the program thread has been waited for. No configuration, window size or position crashes the system.",
["configurations","inputs","histories"],"all configurations, keys, window sizes, mouse positions and input files",
"there is no test of the window loop; window sizes, positions and bytes at the borders are specific inputs",
["source/main.c",U+"input.c"],
[("window loop","source/main.c")]),
]

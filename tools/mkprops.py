#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for titles and statements)."""
import json, os
P=[]
def p(id,title,st,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Source text is laid out in funge-space exactly as documented",
 "Loading a program text puts every character at the column, row, page and fourth-dimension cell given by the line breaks (CR, LF or CRLF, each exactly one), form feeds and vertical tabs before it; line breaks directly following a form feed or vertical tab are ignored, form feeds and vertical tabs count only where the funge has those dimensions, and spaces leave cells as they were. When no standard fixes it, the number of dimensions is the smallest that holds the loaded cells. The funge-space after loading contains nothing else.",
 ["inputs","configurations"],"every text over {letter, space, LF, CR, FF, VT} up to a length bound, in each dimensionality, text and binary mode, from several start cells",
 "the shipped tests load a handful of well-formed files; every ordering of separators and blanks must work",
 ["src/Field.cpp","README.md"],[("text parser","src/Field.cpp Field::parse")],observe="Field::get/min/max/size after construction")
p("C02","Funge-space is an exact map of cells with a sound bounding box",
 "A cell always reads back the last value stored there and every cell never stored (or stored as a space) reads as a space, at any coordinates, negative and distant ones included, with values kept to full cell width. The bounding box used for wrapping and reported to programs always contains every non-blank cell, and when the outermost cell in a direction is blanked it shrinks back to the outermost remaining cell.",
 ["histories","inputs"],"every sequence of stores/erases up to a depth over colliding and boundary coordinates in 1 to 4 dimensions and both cell widths",
 "the unit test performs one short history; shrink/grow bookkeeping depends on the whole history of writes",
 ["src/Field.cpp","src/Vector.cpp"],[("cell store and bounds","src/Field.cpp Field::put"),("vector normalisation and hashing","src/Vector.cpp")],
 [("mins/maxs","bounding box per dimension")],"Field::get/min/max")
p("C03","The instruction pointer moves and wraps correctly",
 "Each step moves the IP by exactly its delta; leaving the occupied region it re-enters on the opposite side along the line it travels (Lahey topology), or on the opposite edge of the 80x25 page under the torus topology, so it never runs off forever when its line crosses the occupied region. Blank cells take no time, and turning, reflecting and flying deltas of any size obey the same rule in every dimension.",
 ["inputs","configurations","histories"],"every small grid shape, start cell, delta (cardinal, diagonal, flying, negative) in 1-3 dimensions under both topologies, including grids edited while the IP is at their edge",
 "tests wrap cardinally in one 2-D shape",
 ["src/InstructionPointer.cpp","src/FungeRunner.cpp"],[("advance and wrap","src/InstructionPointer.cpp InstructionPointer::next")],observe="IP position per tick")
p("C04","Arithmetic, comparison and stack instructions follow the language on all 64-bit values",
 "Digits and hex digits push their value; + - * / % ! ` : \\ $ n compute the documented 64-bit two's-complement result (division and remainder by zero give 0) on the top of the stack, leaving deeper elements untouched. Popping an empty stack yields zero, and no operand makes the interpreter crash.",
 ["inputs","programs"],"every instruction sequence up to a length bound from every small stack over an alphabet of extreme and ordinary values",
 "tests use small positive operands",
 ["src/Unefunge93Strategy.cpp","src/Unefunge98Strategy.cpp","src/Stack.cpp"],[("arithmetic","src/Unefunge93Strategy.cpp"),("stack","src/Stack.cpp")],observe="stack contents per tick")
p("C05","Control flow instructions send the IP where the language says",
 "Direction, turn, reflect, conditional, compare, absolute-delta, trampoline, jump, jump-over, iterate, no-op and stop instructions change position and delta exactly as documented for every operand, at every place (including next to the wrap edge) and for every incoming delta. Iterate finds the next instruction past spaces and ;...; comments, executes it the requested number of times from its own position, and with count zero skips it; the random-direction instruction only ever selects, and can select, each of the 2N cardinal directions.",
 ["programs","inputs","configurations"],"every program over the control-flow alphabet up to a size bound, every operand and incoming delta, 1-3 dimensions",
 "tests cover single uses of each instruction in one orientation",
 ["src/Unefunge93Strategy.cpp","src/Unefunge98Strategy.cpp","src/Befunge98Strategy.cpp","src/Trefunge98Strategy.cpp"],[("flow","Unefunge98Strategy::instructionIterate and siblings")],observe="IP position/delta per tick")
p("C06","String mode, fetch and store obey the selected string style",
 "Between quotes every cell is pushed as data at full width until the closing quote, with runs of white space pushed as one character in SGML style, each space in multispace style, and backslash escapes translated in one step in C style; nothing inside a string is executed. Fetch and store-character read and write the cell the IP is about to enter, at full cell width, and skip it.",
 ["programs","configurations"],"every string body over {letter, space, tab, quote, backslash, escape letters, wide cells} up to a length bound, each style, straight and wrapped lines",
 "tests use two string literals",
 ["src/FungeStateString.cpp","src/Unefunge98Strategy.cpp"],[("string state","src/FungeStateString.cpp")],observe="stack and position per tick")
p("C07","Stack-stack block operations preserve the stacks and storage offset",
 "Begin-block, end-block and stack-under-stack move exactly the requested number of cells in order, filling with zeros when a stack is short and discarding or zero-padding for negative counts, save and restore the storage offset, and reflect when there is no second stack. Get, put and the other storage-relative instructions use the offset in force.",
 ["programs","histories"],"every sequence of block, transfer, push, pop and storage instructions up to a depth from small initial stacks",
 "tests open and close one block",
 ["src/Unefunge98Strategy.cpp","src/StackStack.cpp"],[("blocks","Unefunge98Strategy::instructionBegin/End/Under")],observe="all stacks and storage offset per tick")
p("C08","Each standard and dimensionality executes exactly its instruction set",
 "Under each selected standard and number of dimensions exactly the instructions that standard defines act, and every other cell value reflects the IP without touching stack, funge-space or output. This holds for every cell value, including negative and wide values.",
 ["inputs","configurations"],"every cell value -300..1200 plus wide values in every standard x dimension configuration",
 "tests never execute undefined instructions per standard",
 ["src/FungeRunner.cpp","src/FungeStateNormal.cpp"],[("strategy selection","FungeRunner::loadStrategies"),("dispatch","FungeStateNormal::execute")],observe="full IP state after one tick")
p("C09","Console input and output instructions are exact for every input and value",
 "Number input skips to the next decimal number, consumes exactly its digits and pushes its value; character input pushes the next byte with CR or CRLF conventions as implemented; both reflect at end of input and lose nothing that was read. Number output prints the full 64-bit decimal value followed by a space and character output writes exactly the low byte, in program order.",
 ["inputs","programs"],"every input over {digits, sign, space, CR, LF, letter} up to a length bound, consumed by every short sequence of input/output instructions",
 "tests feed one fixed input file",
 ["src/Unefunge93Strategy.cpp"],[("I/O","Unefunge93Strategy::instructionNumIn/CharIn/NumOut/CharOut")],observe="stack, IP and process output")
p("C10","File input and output round-trip regions of funge-space",
 "File output writes exactly the requested rectangle, and in text mode without trailing blanks; file input places the file's cells at the requested origin plus storage offset, in text or binary interpretation, and reports the origin and the size read. Missing or unwritable files reflect, changing nothing else.",
 ["inputs","programs"],"every small region content, rectangle, flag and offset combination; every small file content",
 "tests write and read one file",
 ["src/Unefunge98Strategy.cpp","src/Field.cpp"],[("i and o","Unefunge98Strategy::instructionFileIn/FileOut"),("dump","Field::dump")],observe="file bytes, stack, funge-space")
p("C11","System information reports the true interpreter state",
 "The system-information instruction pushes, in the documented order, flags matching the enabled capabilities, cell size, handprint, version, paradigm, separator, dimensions, IP identity, position, delta, storage offset, least and greatest point, date, time, stack sizes, arguments and environment. With a positive argument it leaves exactly the selected cell of that report (or of the stack beneath it), and nothing else changes.",
 ["configurations","inputs"],"every argument -2..beyond the report for every combination of capability flags, dimensions, stack-stack shapes, argument and environment lists, positions and deltas",
 "tests read a couple of fields",
 ["src/Unefunge98Strategy.cpp"],[("y","Unefunge98Strategy::pushSysInfo")],observe="stack after the instruction")
p("C12","Funge-style threads run in deterministic round-robin order",
 "In funge threading every live IP executes exactly one instruction per round in creation order, a split creates a child that starts one step behind its parent with reversed delta, copied stacks, storage offset and loaded fingerprints, and the child acts before its parent. IPs share funge-space and nothing else; a stopped IP disappears without disturbing the others, quit ends all of them, and the program ends exactly when the last IP stops.",
 ["programs"],"every program over a concurrency alphabet up to a size bound, including splits while others are mid-string, mid-block or stopping",
 "tests run one or two split programs",
 ["src/FungeUniverse.cpp","src/FungeRunner.cpp"],[("scheduler","FungeUniverse::operator()"),("clone","FungeRunner::FungeRunner(const FungeRunner&)")],observe="output, funge-space write log, exit status of the whole universe")
p("C13","Native threads behave like some interleaving of their instructions",
 "With native threading every schedule of the IPs' OS threads gives an outcome (output, funge-space, exit status) that some interleaving of whole instructions allows; nothing is lost, corrupted, crashed or deadlocked. The program terminates when all IPs have stopped or one quits, in every schedule.",
 ["schedules"],"every thread schedule up to a preemption bound of small multi-IP programs",
 "tests see one schedule chosen by the OS",
 ["src/FungeUniverse.cpp","src/FungeRunner.cpp","src/Field.cpp"],[("native scheduler","FungeUniverse::addRunner/operator()/wait/killAll")],observe="process outcome under a controlled scheduler")
p("C14","Universes start, exchange IPs and end correctly in every schedule",
 "A multiverse run ends exactly when no universe has a live IP, or as soon as each is quit, and its exit status is the prime universe's, for every schedule of the universe threads. An IP transferred to another universe continues there with its stack, is executed by exactly one universe at a time and is never lost or destroyed while in use.",
 ["schedules"],"every schedule up to a preemption bound of start-up, transfer, quit and termination scenarios with 1-3 universes",
 "tests see one schedule chosen by the OS",
 ["src/FungeMultiverse.cpp","src/FungeUniverse.cpp"],[("wait/kill/transfer","FungeUniverse::wait/killAll/transferRunner, FungeMultiverse::waitAll")],observe="process outcome under a controlled scheduler")
p("C15","Fingerprint loading and unloading stack semantics in LIFO order",
 "Loading a fingerprint overlays exactly the instructions it defines, pushes its id and 1, and unloading uncovers whatever was below; an unknown id reflects and changes nothing. Per-instruction swapping, dropping and copying act on single letters only, overlays belong to one IP, and a child of a split starts with its parent's loaded fingerprints.",
 ["histories"],"every sequence of load/unload/per-letter operations up to a depth over overlapping fingerprints, probing all 26 letters",
 "tests load one fingerprint at a time",
 ["src/FingerprintStrategy.cpp","src/FungeStateNormal.cpp","src/fingerprint/FingerprintFING.cpp"],[("load/unload","FingerprintStrategy::load/unload"),("FING","FingerprintFING::execute")],observe="behaviour of every letter after the history")
p("C16","Funge-lib fingerprints compute correctly on the caller's stack",
 "A fingerprint implemented as a funge-lib file runs its instruction to completion on the calling IP's stack and returns control with the documented result; it is preferred over a built-in and can be loaded by any number of IPs. The shipped libraries compute modulo variants, Roman numerals and terminal sequences correctly for all operands.",
 ["inputs","histories"],"all operand pairs in a grid including negative, zero and large values for each shipped library instruction, from several stack depths, in one and several IPs",
 "tests call one or two instructions",
 ["src/fingerprint/FingerprintFungeLib.cpp","src/fingerprint/FingerprintDynamic.cpp","fing/MODU.fl","fing/ROMA.fl","fing/TERM.fl"],[("dynamic call","FingerprintFungeLib::execute")],observe="caller stack and output")
p("C17","Disabled capabilities stay disabled",
 "With concurrency, execution or filesystem access disabled, no instruction sequence, fingerprint, funge-lib call or created universe starts an IP, runs a command or touches a file: the instruction reflects instead. The system information of every IP reports the capabilities truthfully.",
 ["programs","configurations"],"every program up to a size bound over the capability-using instructions and the fingerprints that reach them, for all 8 flag combinations, with system calls recorded",
 "tests check only the enabled case",
 ["src/Unefunge98Strategy.cpp","src/fingerprint/FingerprintDIRF.cpp","src/fingerprint/FingerprintPERL.cpp","src/StarfishStrategy.cpp"],[("capability checks","Unefunge98Strategy::instructionThread/FileIn/FileOut/Execute")],observe="recorded system(), file and split effects")
p("C18","><> programs run as the Fish language defines",
 "Every ><> instruction acts on its floating-point stack as documented: pushes, arithmetic, comparisons, mirrors, jumps, shifting, reversal, stack creation and removal, register, code access, input and output. Any underflow, division by zero, invalid stack operation or unknown instruction ends the program with the fishy error and status 1.",
 ["programs","inputs"],"every instruction sequence up to a length bound from small stacks over representative values, every incoming direction",
 "tests run a few complete programs",
 ["src/FishStrategy.cpp"],[("Fish instructions","src/FishStrategy.cpp")],observe="stacks, IP, output, exit status per tick")
p("C19","*><> extensions run as the Starfish language defines",
 "The fisherman, call and return, dive and rise, stack selection, file, and time instructions act as documented for every incoming direction and stack shape, while all ><> instructions keep their meaning. Underwater only movement instructions act.",
 ["programs","inputs"],"every instruction sequence up to a length bound over the extension alphabet from small stacks, every incoming direction",
 "tests run one program per instruction",
 ["src/StarfishStrategy.cpp","src/FishStrategy.cpp","src/StackStack.cpp"],[("Starfish instructions","src/StarfishStrategy.cpp")],observe="stacks, IP, output, exit status per tick")
p("C20","MODE switches change stack, movement and code editing as documented",
 "Hover mode makes direction changes relative, invert and queue modes change the end at which pushes and pops happen, and switch mode rewrites bracket instructions to their partner when executed; each toggles independently, applies to every stack of every IP in the universe and turning it off restores normal behaviour.",
 ["programs","histories"],"every sequence of mode toggles and affected instructions up to a depth, alone and combined with blocks and fingerprints",
 "tests hardly touch MODE",
 ["src/fingerprint/FingerprintMODE.cpp","src/Stack.cpp","src/InstructionPointer.cpp","src/StackStack.cpp"],[("mode flags","FungeUniverse::toggleMode/updateMode")],observe="stacks, IP, funge-space per tick")
p("C21","Integer, logic, complex and base fingerprints compute exact results",
 "BOOL, BITW, FRTH, CPLI, BASE, ORTH arithmetic, TOYS arithmetic and FIXP instructions pop and push exactly what their documentation says for every operand, printing numbers in any base with the documented digits. Operands out of range reflect or give a defined value, never corrupt or crash.",
 ["inputs","programs"],"all operand tuples over an alphabet of extreme and ordinary 64-bit values for every instruction, at several stack depths",
 "tests exercise a few operands of a few instructions",
 ["src/fingerprint"],[("BASE/BITW/BOOL/CPLI/FIXP/FRTH/TOYS","src/fingerprint/*.cpp")],observe="stack and output per tick")
p("C22","String and space fingerprints edit exactly the cells and strings documented",
 "STRN, JSTR, TOYS block operations, ORTH access, REFC references and SUBR calls read, write and return exactly the strings, cells and positions documented, including empty strings, overlapping regions, negative sizes and storage offsets. No other cell or stack element changes.",
 ["inputs","programs"],"every small string/region/operand combination for every instruction, including overlapping and degenerate ones",
 "tests exercise one case of a few instructions",
 ["src/fingerprint","src/VectorRange.cpp"],[("STRN/JSTR/TOYS/ORTH/REFC/SUBR","src/fingerprint/*.cpp")],observe="stack, funge-space, output per tick")
p("C23","Command line options, files and exit status act as documented",
 "Every combination of options selects the documented dialect, topology, string style, cell size, threading and capabilities, later options overriding earlier ones; program arguments reach the program unchanged. Invalid or empty option values give EINVAL, unreadable files EIO, and otherwise the exit status is the quit value of the first universe or zero; no argument vector crashes or hangs the interpreter.",
 ["inputs","configurations"],"every argument vector up to a length bound over all options with valid, invalid and empty values and every file extension",
 "tests use a few fixed command lines",
 ["src/Funge.cpp"],[("option parsing","Funge::fungemain"),("file kinds","createUniverse/parseFMV")],observe="exit status and probe-program output of the real entry point")
p("C24","The debugger stops, inspects and steers without altering the program",
 "Stepping, breakpoints, watchpoints and software breakpoints stop the IP exactly where requested and nowhere else; inspection commands show the true stack, position, delta, storage, backtrace and cells and change nothing. Continuing gives the same program results as running without the debugger, whatever the command sequence, including malformed commands and end of input.",
 ["inputs","histories"],"every debugger command sequence up to a length bound on small programs",
 "tests run one scripted session",
 ["src/FungeDebugger.cpp","src/Defunge.cpp","src/fingerprint/FingerprintDBUG.cpp"],[("debugger","FungeDebugger::tick"),("commands","src/Defunge.cpp")],observe="debugger transcript and program outcome")
p("C25","Inter-IP communication reaches exactly the addressed IP",
 "Every IP has a unique identity; the communication fingerprint reads, takes from and pushes to exactly the addressed live IP's top stack, reports the parent's identity, reflects for unknown identities, and a dormant IP resumes exactly when its stack has been touched.",
 ["programs"],"every two- and three-IP program up to a size bound over the communication instructions",
 "tests do not use the fingerprint",
 ["src/fingerprint/FingerprintIIPC.cpp","src/FungeUniverse.cpp"],[("IIPC","FingerprintIIPC::execute")],observe="output of the whole universe")
p("C26","No instruction in any state crashes or corrupts the interpreter",
 "Whatever the stack contents, position, delta, input and loaded fingerprint, executing any instruction completes or reflects without memory errors, uncaught exceptions or traps. A reflecting instruction leaves the IP able to continue.",
 ["inputs","programs"],"every instruction of every fingerprint and dialect on every operand tuple up to a length bound over an adversarial alphabet, under memory-error detection",
 "tests only use valid operands",
 ["src","src/fingerprint"],[("all instruction handlers","src/*Strategy.cpp, src/fingerprint/*.cpp")],observe="process health under AddressSanitizer/UBSan")
p("C27","BeQunge and funge-lib files load at the stated coordinates, any dimension",
 "A BeQunge file's blocks appear at the origins and coordinates it states in any number of dimensions and imply the N-dimensional fingerprint; funge-lib planes appear on the page of their letter. The N-dimensional movement instructions then move along the requested axis with wrapping in every dimension.",
 ["inputs","programs"],"every small file over the directive grammar, and every N-dimensional instruction and operand in 2-7 dimensions",
 "tests load three files",
 ["src/Field.cpp","src/fingerprint/FingerprintNFUN.cpp"],[("parsers","Field::parseBeq/parseFungeLib"),("NFUN","FingerprintNFUN::execute")],observe="funge-space and IP per tick")
p("C28","Floating-point fingerprints compute IEEE results",
 "FPSP and FPDP instructions pop operands, compute the IEEE single or double result of the documented function, and push exactly its bits with nothing else in the cell; conversion, parsing and printing agree with the value. Malformed numbers reflect.",
 ["inputs"],"all operand tuples over an alphabet of special and ordinary values for every instruction",
 "tests do not use these fingerprints",
 ["src/fingerprint/include/FingerprintFloat.h","src/fingerprint/FingerprintFPRT.cpp"],[("float ops","FingerprintFloat<T>::execute")],observe="stack and output per tick")
p("C29","Commands, directories, Perl and timers act exactly on the system",
 "The execute instruction and the Perl fingerprint hand the system exactly the command on the stack and push its documented status; directory instructions make, enter and remove exactly the named directory and reflect when the system refuses, and file instructions afterwards work in the entered directory. Timer instructions give each IP the microseconds since its own mark, reflecting without one. Nothing else on the stack changes.",
 ["inputs","histories"],"every command text and status over small alphabets, every sequence of directory instructions and of timer instructions up to a depth under several clocks",
 "tests run one command and never use these fingerprints",
 ["src/Unefunge98Strategy.cpp","src/fingerprint/FingerprintDIRF.cpp","src/fingerprint/FingerprintPERL.cpp","src/fingerprint/FingerprintHRTI.cpp"],[("execute","Unefunge98Strategy::instructionExecute"),("directories","FingerprintDIRF::execute"),("Perl","FingerprintPERL::execute"),("timers","FingerprintHRTI::execute")],observe="stack, commands handed over, directories and files per tick")
p("C30","Multiverse instructions act on exactly the named universe",
 "Creating a universe gives it a unique name and the requested dimensionality, language and modes; copying moves every cell of the stated region between exactly the two universes named; entering puts the IP at the stated place with the stated delta; counting and naming report truly. An unknown universe or a bad argument reflects and changes nothing.",
 ["inputs","histories"],"every operand combination over small alphabets, and every sequence of multiverse instructions up to a depth, in a running multiverse",
 "tests jump once between two universes",
 ["src/fingerprint/FingerprintMVRS.cpp","src/FungeMultiverse.cpp","src/FungeUniverse.cpp"],[("instructions","FingerprintMVRS::execute"),("names","FungeMultiverse::create")],observe="program output and exit status")
path=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(path,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as source so the file stays in step)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=False):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

CI = "src/stub/core_impl"
CMD = "src/protocol/commands"
CONN = ["Connection::write / Connection::flush of a recording connection", "calls received by an instrumented Target"]

prop("P01", "Everything the stub transmits is a well-formed, one-per-command packet stream",
 "For every target configuration and every command history, the bytes the stub writes form a sequence of '+' acknowledgements and complete `$payload#xx` packets whose two-digit checksum is the modulo-256 sum of the payload bytes and whose payload never contains an unescaped '$' or '#'. Every well-formed command is answered, in order, by exactly one reply packet before the next command is consumed; the only exceptions are the additional console-output ('O') packets, resume commands (whose reply is the later stop reply), a kill outside extended mode and a restart (R), which have no reply, and commands that end the session with an error. An error code is never appended to a reply that already carries data.",
 ["inputs", "histories", "configurations"], "all target feature sets, all command sequences, all payload contents incl. run-length-encoded ones",
 "The unit tests only parse a few requests; no test ever looks at transmitted bytes, and framing depends on every handler, on RLE state and on error paths.",
 ["src/protocol/response_writer.rs", CI + ".rs", CI + "/base.rs", CI + "/tracepoints.rs"],
 [("packet framing and checksum", "ResponseWriter::flush/inner_write"), ("one response per command", "GdbStubImpl::handle_packet")], CONN)

prop("P02", "RLE and binary escaping are transparent and use only legal encodings",
 "For every payload, decoding the transmitted packet (run-length expansion, then `}` unescaping for binary replies) yields exactly the payload the handler produced, and the same session with run-length encoding disabled yields the same decoded payloads. A run-length repeat count is always a printable character (' ' to '~') that is neither '#' nor '$' and denotes at least three repeats, runs of every length survive, and the request to disable RLE is honoured everywhere.",
 ["inputs", "configurations"], "all byte strings sent as hex, binary or text replies; all run lengths; RLE on/off for the target and for monitor output",
 "Run-length behaviour depends on run length and on where runs start relative to escapes and the checksum; no existing test exercises the writer.",
 ["src/protocol/response_writer.rs", "src/target/mod.rs"],
 [("run-length encoder", "ResponseWriter::write"), ("binary escaping", "ResponseWriter::write_binary"), ("RLE opt-out", "Target::use_rle, MonitorCmd output")], CONN)

prop("P03", "No input byte stream can panic, hang or corrupt memory of the stub",
 "Whatever bytes a client sends, in any state, for any packet buffer (borrowed or owned, of any size, including empty) and any target configuration, processing a byte terminates and either returns a state or an error value: it never panics, never overflows arithmetic, never loops without bound, and never performs an out-of-bounds or otherwise undefined memory access. This holds with packet trace logging enabled too, and the optimized (unsafe) and `paranoid_unsafe` builds react identically.",
 ["inputs", "histories", "configurations"], "all byte streams (valid, mutated, truncated, oversized, random), all buffer sizes, logging on/off, both unsafe-code build flavours",
 "The repo's no_panics test greps one no_std example's assembly; unit tests parse a few well-formed packets. Neither runs hostile input through the live state machine or checks the unsafe code.",
 ["src/protocol/packet.rs", "src/protocol/common/hex.rs", "src/protocol/recv_packet.rs", "src/util/managed_vec.rs", "src/protocol/commands.rs", CI + "/base.rs", CI + "/tracepoints.rs"],
 [("unchecked slicing", "PacketBuf::strip_prefix/into_body, decode_hex_buf"), ("receive state machine", "RecvPacketStateMachine::pump"), ("argument parsers", "src/protocol/commands/_*.rs")], CONN)

prop("P04", "Corrupted or oversized packets are never executed or acknowledged",
 "A packet whose checksum digits do not match its body, whose checksum is not two hexadecimal digits, or which does not fit the caller-provided packet buffer is never acted upon: the target receives no call, nothing is acknowledged or answered, and the caller gets an error. A negative acknowledgement and a stray header byte likewise surface as an error instead of being executed or ignored, while a correctly checksummed packet that fits is always accepted, whatever the case of its checksum digits.",
 ["inputs", "fault_sequences"], "all commands x all single-byte corruptions, truncations, insertions and checksum mutations; all packet buffer sizes around the packet length",
 "Checksum rejection must hold for every body and every corruption position, including stale bytes left in the reused buffer; existing tests never feed a corrupted packet.",
 ["src/protocol/packet.rs", "src/protocol/recv_packet.rs", "src/util/managed_vec.rs", "src/stub/error.rs"],
 [("checksum verification", "PacketBuf::new"), ("buffer overflow detection", "ManagedVec::push"), ("NACK handling", "GdbStubImpl::handle_packet")], CONN)

prop("P05", "Acknowledgements and flushing follow the protocol exactly",
 "Until no-ack mode has been agreed, every accepted command packet is acknowledged with exactly one '+' transmitted before its reply; once the 'OK' to the no-ack request has been sent no further '+' is ever transmitted, and a target that opts out of no-ack mode keeps acknowledging. Everything the stub has written for a command (acknowledgement, reply, console output, stop reply) has been flushed by the time it hands control back to wait for more data, for the target to run, or for the end of the session.",
 ["histories", "configurations"], "all command sequences with the no-ack request at any position, all targets, connections that buffer until flushed",
 "Requires relating connection write/flush order to protocol state over whole histories, across resume, kill and error paths that tests never combine with a buffering connection.",
 [CI + ".rs", CI + "/no_ack_mode.rs", "src/protocol/response_writer.rs", "src/stub/state_machine.rs"],
 [("acknowledgement", "GdbStubImpl::handle_packet"), ("flush rule", "GdbStubImpl::handle_packet / ResponseWriter::flush")], CONN)

prop("P06", "Replies do not depend on buffer kind, buffer size, stale bytes or ack noise",
 "For a given target and command sequence, replies and target calls are the same whether the packet buffer is caller-provided or allocated, whatever bytes it held before, whatever larger commands were received earlier, and however many '+' bytes arrive between packets. The size the stub advertises as its packet size is usable: any packet whose payload has up to that many bytes is accepted, and data-returning requests return correct (possibly shorter) data for every buffer size that can hold the request.",
 ["inputs", "configurations", "histories"], "all buffer sizes from the smallest that holds the request up to several KiB, all prior contents, all command orders",
 "Handlers reuse the request buffer as scratch output space, so correctness depends on the leftover bytes and exact lengths; tests use one fixed small buffer.",
 ["src/protocol/recv_packet.rs", "src/util/managed_vec.rs", "src/protocol/packet.rs", CMD + "/_m.rs", CMD + "/_vFile_pread.rs", "src/protocol/common/qxfer.rs", "src/stub/builder.rs"],
 [("buffer reuse as scratch", "PacketBuf::into_raw_buf users"), ("buffer growth", "ManagedVec::push"), ("advertised PacketSize", "qSupported handler")], CONN)

prop("P07", "Memory reads return exactly the requested target memory",
 "A memory-read request for any address and length, of any address width, returns the hex of the bytes the target supplies for exactly that address range in order, in the memory context of the currently selected thread, regardless of how large the range is compared to the packet buffer. If the target supplies fewer bytes than asked for (end of memory, an unreadable part, the end of the address space), the reply is a correct contiguous prefix of the range starting at the requested address; if it supplies none because of an error, the reply is that error and nothing else.",
 ["inputs", "configurations"], "all addresses/lengths/word sizes, buffer sizes smaller and larger than the range, targets with short reads and faults at any offset",
 "Depends on the relation between length, buffer size, chunk boundaries and faults; tests never run a read against a target.",
 [CI + "/base.rs", CMD + "/_m.rs", "src/internal/be_bytes.rs", "src/protocol/common/hex.rs"],
 [("chunked read loop", "handle_base Base::m"), ("address decoding", "BeBytes::from_be_bytes")], CONN)

prop("P08", "Memory writes store exactly the sent bytes, once, at the right place",
 "Each memory-write request, hex or binary, with any data (including escaped special bytes), results in exactly one write to the target: those bytes, at that address, for the currently selected thread; 'OK' is reported only if the target accepted it and otherwise the target's error is reported. An address too wide for the target or malformed data never causes a write, and the binary form is not accepted when the target has opted out of it.",
 ["inputs", "configurations"], "all addresses, data contents, lengths, word sizes, hex/binary encodings, target failures",
 "In-place decoding must be right for every byte value and length (escape sequences, odd digits); tests only cover the decoding helper on one sample.",
 [CI + "/base.rs", CI + "/x_upcase_packet.rs", CMD + "/_m_upcase.rs", CMD + "/_x_upcase.rs", "src/protocol/common/hex.rs"],
 [("hex write", "handle_base Base::M"), ("binary write", "handle_x_upcase_packet"), ("in-place decoding", "decode_hex_buf/decode_bin_buf")], CONN)

prop("P09", "Register reads and writes are faithful to the target's registers",
 "Reading all registers returns the target architecture's serialization of the selected thread's registers byte for byte, with unavailable bytes shown as 'xx', and writing all registers hands the target exactly the deserialized values. Single-register access addresses exactly the requested register of the selected thread, returns exactly the bytes the target supplied ('xx' for each byte of a register the target reports as unavailable), writes exactly the sent bytes once, answers an unknown register number with an empty reply and no target call, and reports target errors as such.",
 ["inputs", "configurations"], "all register contents and sizes (fixed and variable), register numbers, threads, availability patterns, target errors",
 "Needs a register model with unavailable bytes, variable sizes and errors compared end to end; tests contain none.",
 [CI + "/base.rs", CI + "/single_register_access.rs", CMD + "/_p.rs", CMD + "/_p_upcase.rs", CMD + "/_g_upcase.rs", "src/arch.rs"],
 [("g/G", "handle_base"), ("p/P", "handle_single_register_access")], CONN)

prop("P10", "Built-in architectures' register files round-trip and agree with their layout",
 "For every architecture shipped with the library, serializing any register values and deserializing the bytes gives back the same values, each register is laid out at the offset, width and byte order that its published target description or its documented GDB register order prescribes, and the register-number mapping names the register at that position with the right size. Deserializing any byte string of any length returns a value or an error and never panics, input that is too short is rejected, and breakpoint-kind values outside the documented set are rejected.",
 ["inputs"], "all register values and all byte strings for ARM, AArch64, x86, x86-64, RISC-V 32/64, MIPS 32/64 (with and without DSP), MSP430(X), PowerPC",
 "Tests only check serialized length vs. register sizes for two architectures; value round trip, ordering, endianness and malformed input are over all values.",
 ["gdbstub_arch/src/arm/reg/arm_core.rs", "gdbstub_arch/src/aarch64/reg/aarch64_core.rs", "gdbstub_arch/src/x86/reg/core64.rs", "gdbstub_arch/src/x86/reg/core32.rs", "gdbstub_arch/src/riscv/reg/riscv.rs", "gdbstub_arch/src/mips/reg/mips.rs", "gdbstub_arch/src/msp430/reg/msp430.rs", "gdbstub_arch/src/ppc/reg/common.rs"],
 [("serialization", "Registers::gdb_serialize/gdb_deserialize"), ("register ids", "RegId::from_raw_id")],
 ["public gdb_serialize / gdb_deserialize / from_raw_id / from_usize / target_description_xml"])

prop("P11", "Thread selection and enumeration reflect the target's threads",
 "After selecting a thread for memory/register access, every following memory and register access goes to that thread until another selection or a stop report that names a thread (the replies to `?`, `vAttach` and `vRun` included), after which they go to the thread it names; selecting 'any thread' picks a live thread and fails cleanly if there is none. The thread list reports exactly the target's active threads in order, each once; thread-alive queries and current-thread queries agree with the target, and a single-threaded target presents exactly one, always-alive thread.",
 ["inputs", "histories", "configurations"], "all thread sets and ids, all interleavings of selection, access, stop reports and enumeration",
 "Selection is hidden state carried across commands; only histories mixing selection, stops and accesses expose errors, and no test does that.",
 [CI + "/base.rs", CI + "/resume.rs", CI + "/extended_mode.rs", CMD + "/_h_upcase.rs", "src/protocol/common/thread_id.rs"],
 [("thread selection", "Base::H"), ("enumeration", "Base::qfThreadInfo/qsThreadInfo/T"), ("selection on stop", "write_stop_common")], CONN)

prop("P12", "Thread ids on the wire follow the negotiated multiprocess syntax",
 "Once the client has announced multiprocess support every thread id the stub sends has the form p<pid>.<tid> in hexadecimal with the target's current process id, and before or without it (or after it is withdrawn) every id is the plain hexadecimal tid. Thread ids received in either syntax, with any hexadecimal value, leading zeros or the special 0 / -1 forms, denote the same threads.",
 ["inputs", "histories", "configurations"], "all tid/pid values, negotiation before/after/withdrawn, all replies carrying ids",
 "The format is decided by negotiation state at each of five separate reply sites; tests only parse sample ids.",
 ["src/protocol/common/thread_id.rs", "src/protocol/response_writer.rs", CI + "/base.rs", CI + "/resume.rs", CI + "/extended_mode.rs", CMD + "/_qSupported.rs"],
 [("id formatting", "ResponseWriter::write_specific_thread_id"), ("id parsing", "ThreadId::try_from"), ("negotiation", "handle_base qSupported")], CONN)

prop("P13", "A resume request reaches the target exactly as the client asked",
 "Every accepted continue, step, signal, range-step or reverse request leads to exactly the per-thread actions the client listed, in order, with the same signals, thread ids and address ranges, preceded by discarding earlier actions and followed by exactly one resume; the legacy continue/step requests apply to the thread chosen for resumption. A request that is rejected (malformed, unsupported kind, step for all threads) never resumes the target, and the set of actions reported as available matches what the target supports.",
 ["inputs", "histories", "configurations"], "all vCont action lists, signals, ranges and thread ids; legacy and reverse packets; single/multi-threaded targets with any subset of resume features",
 "Action lists are unbounded and interact with default actions and per-target features; no test drives a resume.",
 [CI + "/resume.rs", CI + "/reverse_exec.rs", CMD + "/_vCont.rs", CMD + "/_c.rs", CMD + "/_s.rs"],
 [("vCont dispatch", "do_vcont_single_thread/do_vcont_multi_thread"), ("parsing", "vCont Actions::iter"), ("reverse execution", "handle_reverse_cont/step")], CONN)

prop("P14", "Each resume yields exactly one stop reply describing the reported reason",
 "After a resume the stub stays in the running state, sending no packet, until the caller reports a stop; then it sends exactly one stop reply whose kind, signal, thread id, watch address and kind, replay-log position or system-call number are those of the reported reason (named signals having GDB's numbers), and returns to idle. Reported target exit or termination ends the session with that same status, and a reason whose feature the target does not implement is refused with an error and no packet.",
 ["histories", "inputs", "configurations"], "all stop reasons and field values x target features x negotiated id syntax, repeated over many run/stop cycles",
 "Stop replies combine ten reason kinds with features and hidden selection state over histories; there is no test of any stop reply.",
 [CI + "/resume.rs", "src/stub/state_machine.rs", "src/stub/stop_reason.rs"],
 [("stop reply", "finish_exec/write_stop_common"), ("state transitions", "GdbStubStateMachineInner::report_stop")], CONN)

prop("P15", "An interrupt from the client is delivered once and reported at the right time",
 "An interrupt byte received between packets hands control to the caller exactly once, whether the target is running or stopped. If the target was running, the stop reason supplied is reported immediately, or nothing is sent when none is supplied and the target keeps running; if it was stopped, nothing is sent until the next resume, which is then answered at once with exactly that reason, and only once. An interrupt byte inside a packet body is data, not an interrupt.",
 ["histories", "schedules"], "all interleavings of interrupts with commands, resumes and stops",
 "The deferred case needs an interrupt while idle followed by arbitrary commands and a resume; untested.",
 ["src/stub/state_machine.rs", "src/protocol/packet.rs", CI + ".rs", "src/stub/mod.rs"],
 [("deferred stop reason", "GdbStubStateMachineInner::<Idle>::incoming_data"), ("interrupt_handled", "GdbStubStateMachineInner::<CtrlCInterrupt>")], CONN)

prop("P16", "Breakpoint and watchpoint requests map one-to-one onto target calls",
 "Each insert or remove request leads to exactly one add or remove call of the requested type (software, hardware, write/read/access watchpoint) with the requested address and kind or length, and reports OK, the 'cannot do it' error, or the target's error according to the target's answer. Types the target does not implement, and unknown types, get an empty reply and no target call; values too wide for the target are rejected without a call.",
 ["inputs", "configurations"], "all types, addresses, kinds/lengths, word sizes, feature subsets, target outcomes",
 "Type x direction x feature x outcome is a product the unit tests of the packet parser do not reach.",
 [CI + "/breakpoints.rs", CMD + "/breakpoint.rs", "src/protocol/commands.rs"],
 [("dispatch", "handle_breakpoint_common"), ("parsing", "BasicBreakpoint::from_slice")], CONN)

prop("P17", "Advertised features match what is served; the rest gets an empty reply",
 "For every target configuration, the feature list sent to the client names a feature if and only if the target supports it, and commands belonging to a supported feature are served by the target. A command belonging to a feature the target does not support, and any unknown command, is answered with an empty packet, without any target call and without disturbing the session (except the diagnostic given for resume requests to a target without resume support). Whatever the target does not override behaves as documented: optional features are absent, the opt-out switches are on, and a target that relies on the default methods behaves exactly like one that spells them out.",
 ["configurations", "inputs"], "all subsets of optional target features (IDETs and opt-out flags), all known and unknown packet names",
 "There are about forty independent feature switches; tests instantiate none of the combinations.",
 [CI + "/base.rs", "src/protocol/commands.rs", CI + ".rs", "src/target/mod.rs"],
 [("advertisement", "handle_base qSupported"), ("dispatch gating", "Command::from_packet"), ("unknown commands", "GdbStubImpl::handle_command")], CONN)

prop("P18", "Target errors reach the right party: client for non-fatal, caller for fatal",
 "Whenever a target operation fails non-fatally, the client gets an error reply 'Exx' with the documented code (the given errno, the OS error of an I/O error, else 121), or, where a reply already carrying data the target produced is under way, a reply that ends with that data, and the session continues unharmed with the next command. Whenever a target operation fails fatally, or the connection fails, the session stops with an error that yields back precisely that target error or that connection error and its kind, nothing more is executed, and no success reply is sent.",
 ["fault_sequences", "inputs", "configurations"], "every target operation x every error kind and code, every connection read/write/flush/init failure position",
 "Fault positions are unbounded and each handler propagates errors by hand; tests inject none.",
 [CI + ".rs", "src/stub/error.rs", CI + "/base.rs", CI + "/tracepoints.rs", CI + "/host_io.rs", "src/stub/mod.rs"],
 [("error mapping", "TargetResultExt::handle_error"), ("error surface", "GdbStubError accessors")], CONN)

prop("P19", "Chunked object transfers reassemble to exactly the target's object",
 "A client that reads the target description, memory map, executable name, auxiliary vector or shared-library list by repeated offset/length requests, with any chunk lengths and any buffer size, obtains exactly the object's bytes and then an end marker; each request reaches the target with the requested offset, length, annex and process id and each reply carries exactly the bytes the target produced. Requests at or past the end, or with huge offsets or lengths, terminate cleanly.",
 ["inputs", "configurations"], "all object contents (any bytes), all offset/length sequences, all buffer sizes, all five object kinds, arch-provided and overridden description",
 "Chunk boundaries, escaping and buffer limits interact; no test performs a transfer.",
 ["src/protocol/common/qxfer.rs", CI + "/target_xml.rs", CI + "/memory_map.rs", CI + "/exec_file.rs", CI + "/auxv.rs", CI + "/libraries.rs"],
 [("request parsing", "QXferReadBase::from_packet"), ("arch description slicing", "handle_target_xml"), ("m/l framing", "handle_*")], CONN)

prop("P20", "Host file I/O requests and results are carried faithfully",
 "Each file operation reaches the target once with exactly the file name bytes, flags, mode, descriptor, count, offset, data and filesystem the client encoded, the named flag and mode constants having the protocol's values; undefined flag bits are rejected. Results are returned as the client protocol prescribes: the descriptor or count in hexadecimal, data escaped so that it decodes to exactly the bytes the target supplied, the stat structure field by field in big-endian order, and failures as -1 with the right error number.",
 ["inputs", "configurations"], "all operations, arguments, data bytes, results and error numbers, all operation subsets",
 "Argument and result encodings are over arbitrary bytes; tests parse none of them.",
 [CI + "/host_io.rs", "src/target/ext/host_io.rs", CMD + "/_vFile_open.rs", CMD + "/_vFile_pread.rs", CMD + "/_vFile_pwrite.rs", CMD + "/_vFile_readlink.rs", CMD + "/_vFile_setfs.rs"],
 [("result encoding", "handle_host_io"), ("argument parsing", "_vFile_*.rs")], CONN)

prop("P21", "Extended-mode process control is carried out exactly as requested",
 "Starting a program, attaching, restarting, killing, querying attachment and configuring randomization, environment, shell and working directory each reach the target once with exactly the requested program name, arguments, pid, variables and values, with absent distinguished from present; the reply reflects the target's answer. Outside extended mode the target is always reported as attached-to, and attaching without current-pid support is refused before the target is touched.",
 ["inputs", "configurations"], "all names, argument lists, variables and pids (any bytes), all feature subsets, all target answers",
 "Only vRun's parser has a few unit tests; the effects and the other commands have none.",
 [CI + "/extended_mode.rs", CI + "/base.rs", "src/target/ext/extended_mode.rs", CMD + "/_vRun.rs", CMD + "/_QEnvironmentHexEncoded.rs", "src/protocol/common/lists.rs"],
 [("dispatch", "handle_extended_mode"), ("argument decoding", "vRun::from_packet, ArgListHex")], CONN)

prop("P22", "Monitor commands and their console output arrive complete and in order",
 "A monitor command reaches the target exactly once with exactly the bytes the user typed, and everything the target prints while handling it, by raw or formatted writes with flushes at any points, arrives at the client as console packets whose concatenated contents equal the output, in order, before the final OK. Empty output produces no console packet.",
 ["inputs", "histories"], "all command bytes, all sequences of raw/formatted writes and flushes, RLE on/off",
 "Output buffering is driven by arbitrary target behaviour; untested.",
 [CI + "/monitor_cmd.rs", "src/protocol/console_output.rs", CMD + "/_qRcmd.rs"],
 [("console output", "ConsoleOutput::write_raw/flush/drop"), ("dispatch", "handle_monitor_cmd")], CONN)

prop("P23", "System-call catching, section offsets and thread descriptions are exact",
 "Enabling system-call catching hands the target exactly the listed numbers in order, or no filter for 'all'; disabling reaches the target as such, and a number too wide for the target is not confirmed with OK. Section and segment offsets are reported exactly as the target gave them with the protocol's field names, using the data offset for a missing bss, and a thread's description is returned as hex of exactly the bytes the target supplied for that thread.",
 ["inputs", "configurations"], "all number lists and offsets of any word size, all description bytes, all thread ids",
 "No test covers these handlers.",
 [CI + "/catch_syscalls.rs", CI + "/section_offsets.rs", CI + "/thread_extra_info.rs", CMD + "/_QCatchSyscalls.rs", CMD + "/_qThreadExtraInfo.rs"],
 [("filter decoding", "handle_catch_syscalls"), ("offset formatting", "handle_section_offsets"), ("description", "handle_thread_extra_info")], CONN)

prop("P24", "Tracepoint commands reach the target exactly as the client defined them",
 "Every tracepoint definition reaches the target as one begin call with its number, address, enabled state, step and pass counts, then one call per listed collect action in order with exact contents, and one completion call exactly when the client signals there is no more; source fragments, buffer configuration, trace start/stop/init and frame selection likewise arrive once with exact arguments. Features the stub does not implement and malformed definitions are refused and never confirmed with OK.",
 ["inputs", "histories"], "all tracepoint definitions, action lists (register masks, expressions), source fragments, buffer settings, frame selectors, word sizes",
 "Definitions span several packets with nested binary action lists; tests cover none.",
 [CI + "/tracepoints.rs", CMD + "/_QTDP.rs", CMD + "/_QTDPsrc.rs", CMD + "/_QTBuffer_upcase.rs", CMD + "/_QTFrame.rs"],
 [("definition parsing", "QTDP::from_packet, ExtendTracepoint::parse_raw_actions"), ("dispatch", "handle_tracepoints")], CONN)

prop("P25", "Tracepoint uploads and trace status report exactly the target's state",
 "A client enumerating tracepoints receives every tracepoint the target holds with all its actions and source fragments, each exactly once, in order and re-parsable to the same definition, and then an end indication; restarting the enumeration starts from the beginning. Trace status, per-tracepoint status, trace-buffer contents and the selected frame are reported exactly as the target supplied them, with the protocol's 'no such frame' and 'no more data' markers when there is none.",
 ["inputs", "histories"], "all sets of tracepoints with any number of actions and sources, all target step orders, enumerations interrupted and restarted, all status values",
 "The enumeration is a cursor driven over many packets and target answers; untested.",
 [CI + "/tracepoints.rs", "src/target/ext/tracepoints.rs", CMD + "/_qTBuffer.rs"],
 [("enumeration cursor", "handle_tracepoint_state_machine_step"), ("definition formatting", "NewTracepoint/TracepointAction/SourceTracepoint::write"), ("status formatting", "ExperimentStatus/ExperimentExplanation::write")], CONN)

prop("P26", "Sessions end exactly when and why they should, and can be resumed cleanly",
 "Detach, kill, target exit and target termination, and nothing else, end a session, each with its own reason carrying the exact exit code or signal; detach is confirmed with OK, and in extended mode a kill ends the session only if the target says so. After an end, the caller can return the stub to idle on the same connection and continue serving commands, with the previously negotiated protocol features still in force.",
 ["histories", "configurations"], "all end events at any point of any history, repeated end/return cycles, extended mode on/off",
 "Requires whole-session histories; no test runs a session.",
 [CI + "/base.rs", CI + ".rs", "src/stub/state_machine.rs", CI + "/resume.rs"],
 [("disconnect reasons", "HandlerStatus::Disconnect / FinishExecStatus::Disconnect"), ("reuse", "GdbStubStateMachineInner::<Disconnected>::return_to_idle")], CONN)

prop("P27", "The blocking driver behaves exactly like a correctly driven state machine",
 "For every client byte stream and target schedule, the blocking session runner produces the same transmitted bytes, target calls and end result as feeding the same bytes to the state machine by hand: it reads only while the target is stopped, waits for a stop or data only while it is running, asks the event loop once per interrupt, and reports each stop once. Errors from reading, waiting or interrupt handling end the run with that error attributed to its source.",
 ["histories", "schedules", "fault_sequences"], "all streams, all orders of incoming data versus target stops, failures at any read, wait or interrupt",
 "Only compiled in examples; never executed by a test.",
 ["src/stub/mod.rs", "src/stub/state_machine.rs", "src/stub/error.rs"],
 [("event loop", "GdbStub::run_blocking")], CONN + ["BlockingEventLoop callbacks"])

prop("P28", "Boxed and borrowed trait-object targets and connections are transparent",
 "Running a session through a boxed or mutably borrowed trait-object target or connection produces the same transmitted bytes, target calls, flushes and results as using the concrete value directly, for every target configuration.",
 ["configurations", "histories"], "all feature subsets, all command histories, Box<dyn ..> and &mut dyn .. wrappers for targets and both connection traits",
 "Forwarding is per method, so any forgotten or crossed method is visible only for targets using it; tests use none.",
 ["src/target/mod.rs", "src/conn/impls/mod.rs", "src/conn/impls/boxed.rs"],
 [("target forwarding", "impl_dyn_target!"), ("connection forwarding", "impl Connection/ConnectionExt for dyn wrappers")], CONN)

prop("P29", "LLDB register descriptions carry exactly the register metadata",
 "For every register number, the register-information reply lists exactly the name, alternate name, size, offset, encoding, format, set, compiler numbers, role and related registers provided by the target's override or else its architecture, with decimal and hexadecimal fields as LLDB expects, and the end-of-list answer is the error LLDB uses to stop. Overrides take precedence and receive the requested number; opting out disables the query.",
 ["inputs", "configurations"], "all register descriptions (any numbers, optional fields), register numbers, override/arch/none/opt-out",
 "Formatting is over arbitrary values and optional fields; untested.",
 [CI + "/lldb_register_info.rs", "src/target/ext/lldb_register_info_override.rs", "src/arch.rs", "src/protocol/response_writer.rs"],
 [("formatting", "handle_lldb_register_info"), ("decimal output", "ResponseWriter::write_dec")], CONN)

prop("P30", "Unsafe or inconsistent session setups are refused before any traffic",
 "A session for a target without software breakpoints that has not opted in to client-side ones is refused with an error before the connection is used, and every other target is accepted; connection set-up runs exactly once and its failure is reported as an initialization error. A requested packet buffer size larger than the supplied buffer is refused, otherwise exactly the requested size is used, and advertised less the four bytes of a packet's framing.",
 ["configurations"], "all combinations of breakpoint features, opt-in flag, buffer lengths and requested sizes, set-up failures",
 "Configuration products are not instantiated by tests.",
 ["src/stub/mod.rs", "src/stub/builder.rs", CI + "/base.rs"],
 [("guard rail", "GdbStub::run_state_machine"), ("buffer configuration", "GdbStubBuilder::build")], CONN + ["GdbStubBuilder results"])

prop("P31", "The built-in TCP and Unix socket transports carry bytes intact",
 "Over the built-in TCP and Unix-domain stream connections, every byte the client sends is received once and in order and every byte the stub writes arrives once and in order, even when the peer reads slowly or signals interrupt system calls; peeking never consumes a byte, returns the next byte if one is available, and returns immediately with nothing otherwise, without affecting later reads and writes. A closed peer shows up as an error on reading, not as data, and starting a session over TCP turns off send coalescing. A transport that implements only the required methods gets default ones under which every byte of a buffer is written once, in order, up to the first error.",
 ["schedules", "inputs"], "all interleavings of peek/read/write with peer sends, slow readers and closes, for both transports",
 "Depends on socket state and timing; tests open no socket.",
 ["src/conn/impls/tcpstream.rs", "src/conn/impls/unixstream.rs"],
 [("non-blocking peek", "ConnectionExt::peek"), ("blocking read/write", "ConnectionExt::read / Connection::write_all")],
 ["real loopback sockets and socket pairs"])

prop("P32", "All build configurations of the library behave identically on the wire",
 "The same session run against the library built with default features, with only alloc, without alloc (caller-provided buffer), with paranoid_unsafe, and in release mode, produces the same transmitted bytes, target calls and results, apart from how console output is split into packets without alloc.",
 ["configurations", "inputs"], "feature combinations x generated sessions, including malformed input",
 "The test suite builds only the default feature set; alternative cfg branches are never run.",
 ["src/protocol/packet.rs", "src/protocol/common/hex.rs", "src/protocol/response_writer.rs", "src/protocol/console_output.rs", "src/util/managed_vec.rs", "src/stub/builder.rs"],
 [("feature-gated code", "cfg(feature = ...)")], CONN)

prop("P33", "A stock GDB debugging through the stub sees and changes exactly the target",
 "When an unmodified GDB is connected to a single- or multi-threaded target over a TCP or Unix socket, in plain or extended mode, what its commands show agrees with the target's state and what they change arrives in the target: registers, memory dumps and loads, stops for breakpoints, watchpoints, caught system calls, signals and exits, stepping and continuing with or without signals, switching threads, interrupting, monitor commands and remote files, starting, restarting and attaching to programs, running backwards, and trace experiments (defining tracepoints, taking over those of an earlier client, status, recorded frames, saving the trace buffer). This holds for every packet buffer a target may choose that GDB can work with and all optional packets the target may enable or disable; GDB never meets a reply it rejects, and the session ends the way the user or the target ended it.",
 ["inputs", "histories", "configurations"], "all sequences of user commands x target feature sets x buffer sizes, as far as a stock GDB turns them into packets",
 "The interplay with a real client's negotiation, chunking and caching is what users rely on; the test suite contains no client at all.",
 ["src/stub/mod.rs", "src/stub/state_machine.rs", CI + "/base.rs", CI + "/resume.rs", CI + "/extended_mode.rs", CI + "/host_io.rs", "src/protocol"],
 [("feature negotiation", "qSupported handler"), ("stop replies", "write_stop_common"), ("resume packets", "handle_resume")],
 ["GDB's console output and files", "the simulated machine's state"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")

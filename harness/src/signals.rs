//! GDB's signal numbers (include/gdb/signals.def, in order): the library's named
//! constant that must have that number.
use gdbstub::common::Signal;

macro_rules! table {
    ($($n:ident)*) => {
        pub const TABLE: &[(&str, Signal)] = &[$((stringify!($n), Signal::$n)),*];
    };
}
table!(
    SIGZERO SIGHUP SIGINT SIGQUIT SIGILL SIGTRAP SIGABRT SIGEMT SIGFPE SIGKILL SIGBUS SIGSEGV SIGSYS SIGPIPE
    SIGALRM SIGTERM SIGURG SIGSTOP SIGTSTP SIGCONT SIGCHLD SIGTTIN SIGTTOU SIGIO SIGXCPU SIGXFSZ SIGVTALRM
    SIGPROF SIGWINCH SIGLOST SIGUSR1 SIGUSR2 SIGPWR SIGPOLL SIGWIND SIGPHONE SIGWAITING SIGLWP SIGDANGER
    SIGGRANT SIGRETRACT SIGMSG SIGSOUND SIGSAK SIGPRIO SIG33 SIG34 SIG35 SIG36 SIG37 SIG38 SIG39 SIG40 SIG41
    SIG42 SIG43 SIG44 SIG45 SIG46 SIG47 SIG48 SIG49 SIG50 SIG51 SIG52 SIG53 SIG54 SIG55 SIG56 SIG57 SIG58 SIG59
    SIG60 SIG61 SIG62 SIG63 SIGCANCEL SIG32 SIG64 SIG65 SIG66 SIG67 SIG68 SIG69 SIG70 SIG71 SIG72 SIG73 SIG74
    SIG75 SIG76 SIG77 SIG78 SIG79 SIG80 SIG81 SIG82 SIG83 SIG84 SIG85 SIG86 SIG87 SIG88 SIG89 SIG90 SIG91 SIG92
    SIG93 SIG94 SIG95 SIG96 SIG97 SIG98 SIG99 SIG100 SIG101 SIG102 SIG103 SIG104 SIG105 SIG106 SIG107 SIG108
    SIG109 SIG110 SIG111 SIG112 SIG113 SIG114 SIG115 SIG116 SIG117 SIG118 SIG119 SIG120 SIG121 SIG122 SIG123
    SIG124 SIG125 SIG126 SIG127 SIGINFO UNKNOWN INTERNAL_DEFAULT EXC_BAD_ACCESS EXC_BAD_INSTRUCTION
    EXC_ARITHMETIC EXC_EMULATION EXC_SOFTWARE EXC_BREAKPOINT SIGLIBRT
);

/// signal number `v`, by name if it has one
pub fn named(v: u8) -> Signal {
    TABLE.get(v as usize).map(|x| x.1).unwrap_or(Signal(v))
}

X="exhaustive enumeration of a bounded space of calls on the real code, judged by an independent reference model"
S="stateless model checking of the real code under a controlled scheduler (all schedules within a preemption bound)"
M="model checking of the real MPI code on a simulated MPI library (all rank interleavings within a preemption bound)"
D="Bounded, not a proof: exhaustive within the bounds recorded in the evidence file; see DESIGN.md."
LEVELS={
 **{k:(X,D) for k in "C01 C02 C03 C04 C05 C06 C07 C08 C11 C17 C18 C19 C22".split()},
 "C09":(S,D),
 "C10":("exhaustive enumeration of call histories plus stateless model checking of concurrent calls on the real code",D),
 "C12":("exhaustive enumeration of all grid shapes, rank counts and ranks on the real code",D),
 **{k:(M,D) for k in "C13 C14 C15 C16".split()},
 "C21":("exhaustive enumeration of call histories on the real code, each repeated, judged by what the process holds after n, 2n, 4n and 8n repetitions",D),
 "C20":("exhaustive enumeration of operation sequences on the real code against an explicit-state model",D),
}

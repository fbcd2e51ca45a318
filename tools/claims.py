B="Sound for the constructs it names under the listed assumptions (Go front end faithful, documented library contracts, consistent dictionaries); undecidable shapes are reported as violations, so the guarantee covers all inputs, not samples. No execution and no solver: terms are normalised and compared."
t("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C28",VG,B)
NA=dict(
 C26="linguistic quality is a statistical property of dictionary data outside this repository; no static argument over the source can bound it",
 C27="running time and memory as a function of input length depend on runtime quantities (dictionary hit counts, allocator, GC); termination is claimed separately (C25)")

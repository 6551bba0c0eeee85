------------------------------ MODULE Pipeline ------------------------------
(* The tools that move pixels about: extraction of a region, splitting into chunk    *)
(* files, per-chunk processing that keeps only some planes, and assembly.             *)
(* A cube is described by which original pixel (x, y, z) each of its voxels holds and  *)
(* by its reference pixels; every history of tools must keep the pair                 *)
(* (value, world coordinate) together.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS NX, NY, NZ, MaxOps, Emit, Chunks, Lims
QuickLims == {<<0, 0>>, <<1, 1>>, <<0, 1>>}
DeepLims == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>}
VARIABLES vox,      \* function (x,y,z) -> original voxel, or <<>> while split
          ref,      \* reference pixels of the three axes (world coordinate zero)
          parts,    \* chunk files: sequence of [id, spec, done]; spec[i]: sequence over planes of original voxels
          hist
vars == <<vox, ref, parts, hist>>
Dim(v, a) == Cardinality({k[a] : k \in DOMAIN v})
Full == [k \in (1..NX) \X (1..NY) \X (1..NZ) |-> k]
Init == vox = Full /\ ref = <<0, 0, 0>> /\ parts = <<>> /\ hist = <<>>
More == Len(hist) < MaxOps
(* limits lo..hi of one axis: a pair from Lims, counted from each end *)
Lo(l, n) == IF 1 + l[1] <= n THEN 1 + l[1] ELSE n
Hi(l, n) == IF n - l[2] >= Lo(l, n) THEN n - l[2] ELSE Lo(l, n)
Crop(lx, ly, lz) ==
    /\ More /\ parts = <<>>
    /\ LET lo == <<Lo(lx, Dim(vox, 1)), Lo(ly, Dim(vox, 2)), Lo(lz, Dim(vox, 3))>>
           hi == <<Hi(lx, Dim(vox, 1)), Hi(ly, Dim(vox, 2)), Hi(lz, Dim(vox, 3))>>
       IN /\ vox' = [k \in (1..(hi[1] - lo[1] + 1)) \X (1..(hi[2] - lo[2] + 1)) \X (1..(hi[3] - lo[3] + 1)) |->
                        vox[<<k[1] + lo[1] - 1, k[2] + lo[2] - 1, k[3] + lo[3] - 1>>]]
          /\ ref' = <<ref[1] - lo[1] + 1, ref[2] - lo[2] + 1, ref[3] - lo[3] + 1>>
          /\ hist' = Append(hist, [op |-> "crop", box |-> <<lo[1], hi[1], lo[2], hi[2], lo[3], hi[3]>>, n |-> 0])
    /\ UNCHANGED parts
(* pixel number m (from zero) of the flattened sky *)
PixX(m, ny) == (m \div ny) + 1
PixY(m, ny) == (m % ny) + 1
Split(n) ==
    /\ More /\ parts = <<>>
    /\ LET nx == Dim(vox, 1) ny == Dim(vox, 2) nz == Dim(vox, 3)
           num == (nx * ny + n - 1) \div n
           left(c) == IF c * n <= nx * ny THEN n ELSE nx * ny - (c - 1) * n
       IN parts' = [c \in 1..num |-> [done |-> FALSE,
             spec |-> [i \in 1..left(c) |-> [z \in 1..nz |->
                 vox[<<PixX((c - 1) * n + i - 1, ny), PixY((c - 1) * n + i - 1, ny), z>>]]]]]
    /\ hist' = Append(hist, [op |-> "split", box |-> <<>>, n |-> n])
    /\ UNCHANGED <<vox, ref>>
(* one chunk at a time is processed, in any order: only the first plane is kept, doubled or not *)
Process(c) ==
    /\ parts # <<>> /\ c \in DOMAIN parts /\ ~parts[c].done
    /\ parts' = [parts EXCEPT ![c].done = TRUE, ![c].spec = [i \in DOMAIN parts[c].spec |-> <<parts[c].spec[i][1]>>]]
    /\ UNCHANGED <<vox, ref, hist>>
Assemble ==
    /\ parts # <<>> /\ ((\A c \in DOMAIN parts : parts[c].done) \/ (\A c \in DOMAIN parts : ~parts[c].done))
    /\ LET ny == Dim(vox, 2) nx == Dim(vox, 1) n == Len(parts[1].spec) nz == Len(parts[1].spec[1])
           m(k) == (k[1] - 1) * ny + k[2] - 1
       IN /\ vox' = [k \in (1..nx) \X (1..ny) \X (1..nz) |-> parts[(m(k) \div n) + 1].spec[(m(k) % n) + 1][k[3]]]
          /\ hist' = Append(hist, [op |-> IF parts[1].done THEN "assemble1" ELSE "assemble", box |-> <<>>, n |-> 0])
    /\ parts' = <<>> /\ UNCHANGED ref
Next == \/ \E lx, ly, lz \in Lims : Crop(lx, ly, lz)
        \/ \E n \in Chunks : Split(n)
        \/ \E c \in DOMAIN parts : Process(c)
        \/ Assemble
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
(* coordinates stay with values: pixel i has world coordinate i - ref *)
Placed == parts = <<>> => \A k \in DOMAIN vox : vox[k] = <<k[1] - ref[1], k[2] - ref[2], k[3] - ref[3]>>
(* while split: every sky pixel is in exactly one chunk, with its planes in order *)
Partition == parts # <<>> =>
    LET all == {<<c, i>> : c \in DOMAIN parts, i \in 1..Len(parts[1].spec)}
        slots == {s \in all : s[2] <= Len(parts[s[1]].spec)}
        of(s) == parts[s[1]].spec[s[2]][1]
    IN /\ Cardinality(slots) = Dim(vox, 1) * Dim(vox, 2)
       /\ {of(s) : s \in slots} = {vox[<<x, y, 1>>] : x \in 1..Dim(vox, 1), y \in 1..Dim(vox, 2)}
       /\ \A s \in slots : \A z \in DOMAIN parts[s[1]].spec[s[2]] :
              parts[s[1]].spec[s[2]][z] = <<of(s)[1], of(s)[2], of(s)[3] + z - 1>>
EmitCase == (Emit /\ Len(hist) > 0 /\ parts = <<>> /\ (Len(hist) = MaxOps)) =>
    CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.CASES)
=============================================================================

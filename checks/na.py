"""Properties that symbolic execution of this code cannot decide here."""
NA = {
 "M01": dict(title="MLIR dialects convert circuits without changing them",
   statement="Translating a circuit to the MLIR dialects and back, and every MLIR pass, keeps the function of the circuit.",
   over=["programs"], text="all circuits", why="tests compare a few IR files textually",
   files=["mlir"], mech=[dict(name="MLIR passes", where="mlir")],
   reason="the passes are thin layers over the precompiled MLIR libraries (LLVM 20), whose code can neither be instrumented by the clang-18 based executor nor rebuilt here; without them nothing of the passes can be executed symbolically"),
 "B01": dict(title="Python bindings expose the same behaviour as the C++ API",
   statement="Every Python call behaves like the C++ function it is bound to, and circuits exchanged with Qiskit keep their function.",
   over=["inputs", "programs"], text="all calls", why="tests call each binding with a few arguments",
   files=["src/python", "src/mqt"], mech=[dict(name="pybind11 modules", where="src/python")],
   reason="the bindings and the Qiskit conversion run inside the Python interpreter and pybind11, whose precompiled code is out of reach of the symbolic executor; the C++ functions behind the bindings are decided by the other properties"),
 "R01": dict(title="Random draws are uniform and reproducible from the seed",
   statement="The pseudo-random generator behind sampling, noise and the random state and circuit generators yields uniformly distributed draws, reproducibly for a given seed.",
   over=["inputs"], text="all seeds", why="a distributional statement; tests check a few histograms within tolerances",
   files=["src/dd/Package.cpp", "src/dd/Simulation.cpp", "src/dd/NoiseFunctionality.cpp"], mech=[dict(name="std::mt19937_64", where="libstdc++")],
   reason="the statement is about the stream of a Mersenne Twister over all seeds; single paths cannot express convergence of frequencies, and the 19937-bit state is beyond the solver. What the library does with each draw is decided for all draws under D06"),
}

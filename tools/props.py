"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py writes both)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = "src/GTMesh/UnstructuredMesh/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


prop("C01", "Mesh traversal visits exactly the incident pairs, in incidence order",
     "Traversing a mesh from the elements of one dimension to the elements of another calls the given function once for every path through the intermediate dimensions, with the start element first and the reached element second, and for nothing else. The calls follow the storage order: boundary ring order of a cell, sub-element order of a face, first then second vertex of an edge. Traversing from a single element makes exactly the calls of that element, and every traversal of a well-formed mesh ends.",
     ["inputs"], "every well-formed mesh of dimension 2 or 3, of any size, with dynamic or bounded sub-element storage, every pair of dimensions and every start element",
     "The tests traverse two small fixed meshes; a wrong visit needs a particular ring or neighbour configuration (shared faces, cells without neighbours, unusual polygon sizes).",
     [U + "MeshFunctions/MeshApply.h"], [("traversal down to sub-elements and up through reversed calls", "MeshApply, Impl::MeshRun"), ("cell boundary ring", "CellBoundaryConnection::getNextBElem")],
     "the argument pairs received by the functor passed to the traversal")
prop("C02", "Connections list exactly the incident elements, without repetition, in order",
     "For every element of the start dimension, the connections hold exactly the elements of the target dimension that are incident to it, each once. In ascending order the list is strictly increasing; in original order the elements appear in the order in which the traversal first meets them. There is exactly one list per start element, in index order.",
     ["inputs"], "every well-formed mesh of dimension 2 or 3, every pair of dimensions, both orders",
     "The tests compare a few lists of two tiny meshes; missing, repeated or misordered entries appear only for meshes in which elements are met repeatedly or in unsorted order.",
     [U + "MeshFunctions/MeshConnections.h", U + "MeshElements/ElementIndex.hpp"], [("collection into an ordered set / insertion-ordered list", "MeshConnections::connections, Impl::*Connections")],
     "the container returned by the connections call")
prop("C03", "Neighborhood lists exactly the elements sharing a connecting element",
     "For every element of the start dimension, the neighborhood lists exactly those elements of the connected dimension that are incident to one of its connecting elements, each once; when start and connected dimensions are equal the element itself is left out. Ascending lists are strictly increasing and original-order lists follow the order of first meeting. There is exactly one list per start element.",
     ["inputs"], "every well-formed mesh of dimension 2 or 3 and every combination of start, connecting and connected dimension, both orders",
     "The tests look at a handful of lists of two tiny meshes; the composition of two incidences over arbitrary meshes cannot be sampled.",
     [U + "MeshFunctions/MeshNeighborhood.h"], [("composition of two connection tables", "MeshNeighborhood::neighbors")],
     "the container returned by the neighborhood call")
prop("C04", "Colorings are proper for every mesh, method and seed",
     "In a coloring of the elements of one dimension with respect to a connecting dimension, two different elements incident to a common connecting element never have the same color, and every element gets a color. With the greedy method the color of an element never exceeds the number of other elements it conflicts with; the random method uses no more colors than the greedy one.",
     ["inputs", "configurations"], "every well-formed mesh of dimension 2 or 3, every pair of distinct dimensions, both methods and every seed",
     "The tests color one refined mesh and print the result; a conflict needs many elements around one connecting element or a particular recoloring choice.",
     [U + "MeshFunctions/MeshColoring.h"], [("greedy coloring with growing attached-color tables", "Impl::_MeshColoring, ColoringGreedy"), ("random reselection", "ColoringRandom")],
     "the container returned by the coloring call")
prop("C05", "Face-to-cell links always answer for the right side or refuse",
     "A face accepts at most two cells, left side first, and reports success exactly when it stored one; a refused request changes nothing. The next-boundary link and the other cell of a face are answered for precisely the side the given cell occupies; while the two sides hold different cells, a link set for a cell is the one read back for it and leaves the other side untouched. Asking with an invalid index or with a cell that does not touch the face raises an error and changes nothing.",
     ["inputs", "histories"], "every state of a face (free sides, boundary tags, any indices) and every argument, hence every sequence of calls",
     "The tests never call these operations directly with free, boundary or foreign cells; the corner states do not occur in their meshes.",
     [U + "MeshElements/CellConnection.h", U + "MeshElements/CellBoundaryConnection.h"], [("two-sided cell link", "CellConnection::setCellIndex, getOtherCellIndex, swapCellsLR"), ("ring links per side", "CellBoundaryConnection::setNextBElem, getNextBElem")],
     "return values, accessor results and exceptions of the face object")
prop("C06", "Bounded sub-element lists behave as a sequence and never overflow",
     "A list of sub-elements with reserved capacity behaves like a sequence: appending adds at the end, removing a position shifts the rest down by one, and iteration visits exactly the stored entries in order. Appending to a full list or removing a position that does not exist raises an error and leaves the list unchanged; nothing outside the reserved storage is ever touched. The dynamic variant behaves identically without the capacity limit.",
     ["histories", "inputs"], "every capacity, every content and every sequence of append and remove operations",
     "The tests only append a few entries well below the capacity; removal and overflow are never exercised.",
     [U + "MeshElements/MeshElement.h"], [("bounded array with counter", "SubelementContainer<IndexType, Reserve>"), ("dynamic variant", "SubelementContainer<IndexType, 0>")],
     "the entries, size, iteration range and exceptions of the list")
prop("C07", "Boundary cells close exactly the open face sides, with consistent indices",
     "Setting up boundary cells gives every free side of a face its own boundary cell, tagged so that the tag can be recognised and stripped to its position in the boundary list, whose entry refers back to that face; sides that already have a cell keep it. Afterwards no face has a free side and repeating the setup changes nothing. Boundary cell centers equal the centers of their faces, tagging and stripping an index are inverse operations, and clearing a mesh removes its elements of every dimension and its boundary cells.",
     ["inputs", "histories"], "every mesh of any dimension (with any mixture of free and occupied sides) and every index below the tag bit",
     "The tests run the setup on two meshes and look at counts; mixtures of pre-existing boundary cells, repeated setups and large indices are not sampled.",
     [U + "MeshElements/MeshElements.h", U + "UnstructuredMeshDefine.h"], [("boundary cell creation", "MeshElements::setupBoundaryCells, appendBoundaryCell, setupBoundaryCellsCenters, clear"), ("index tagging", "makeBoundaryIndex, extractBoundaryIndex, isBoundaryIndex, isInvalidIndex")],
     "the cell indices of the faces and the list of boundary cells")
prop("C08", "Mesh data containers match the mesh and address the right entry",
     "A data container allocated for a mesh, or for another container, holds for each of its dimensions exactly one entry per mesh element of that dimension, and with an initial value every entry of that dimension equals it. Access through a mesh element, an element index, a dimension or a position always reaches the entry of that dimension and that index; writing it changes no other entry. Copies are independent of the original.",
     ["inputs", "configurations"], "every mesh, every order and selection of dimensions, uniform and per-dimension data types, every history of reallocation",
     "The tests use a few fixed dimension lists on small meshes; a wrong table or position for another order of dimensions is not visible there.",
     [U + "MeshDataContainer/MeshDataContainer.h"], [("allocation", "MeshDataContainer::allocateData / allocateMemory"), ("addressing", "operator[], at, getDataByDim, getDataByPos")],
     "sizes and contents of the arrays of the container")
prop("C09", "Vector arithmetic is coordinate-wise exact in every dimension and type",
     "Sum, difference, scalar multiple and quotient of vectors apply the corresponding operation of the coordinate type to every coordinate independently, and the in-place forms give the same values, also when operands alias. The scalar product is the sum of the products of the coordinates, the norm is its square root for a vector with itself, equality holds exactly when all coordinates agree, and the cross product is the usual one. Construction from a list copies the listed coordinates and zeroes the rest.",
     ["inputs", "configurations"], "every coordinate value (also integer coordinates), every dimension, every list length",
     "The tests add and scale a few small vectors; a coordinate mixed up in one dimension or one operator, or an aliased operand, is not sampled.",
     ["src/GTMesh/NumericStaticArray/Vertex.h", "src/GTMesh/NumericStaticArray/InlineArrayOperations.h", "src/GTMesh/NumericStaticArray/Vector.h"], [("unrolled coordinate loops", "inlineAddition, inlineSubtraction, inlineMultiplication, inlineScalarProduct"), ("operators", "Vertex operators, vectorProduct")],
     "the coordinates of the results")
prop("C10", "Orthogonalisation yields orthogonal vectors with the same spans and norms",
     "Orthogonalising a list of linearly independent vectors makes them mutually orthogonal, keeps the first one's direction, and changes every vector only by a combination of the preceding ones, so that all leading spans are kept. The normalising variant returns unit vectors and the norms that the plain variant's vectors have; the product of the norms is the volume spanned by the input. The fixed-size and the dynamic variants agree.",
     ["inputs"], "every list of linearly independent real vectors, for each supported number of vectors and dimension",
     "No test checks orthogonality; volumes of axis-parallel cells do not reveal a wrong projection coefficient.",
     ["src/GTMesh/NumericStaticArray/GramSchmidt.h"], [("Gram-Schmidt process", "gramSchmidt (array / vector, with / without norms)")],
     "the output vectors and norms")
prop("C11", "Centers, measures, normals and distances have their geometric meaning",
     "On two- and three-dimensional meshes with planar faces and cells that are star-shaped around their center, lengths, areas and volumes are the true measures and face normals are unit vectors orthogonal to the face that point away from the left cell (towards the right one), independently of the computation method. Centers are the averages of the centers of the sub-elements. Cell distances, center differences and edge orientations agree with the centers and vertices they are derived from, also at boundary faces.",
     ["inputs"], "every mesh of dimension 2 or 3 with planar faces and star-shaped cells",
     "The tests check a few sums on two fixed meshes; errors in orientation, in boundary cases or for non-axis-parallel cells cancel or do not occur there.",
     [U + "MeshFunctions/ComputeMeasures.h", U + "MeshFunctions/ComputeCenters.h", U + "MeshFunctions/ComputeNormals.h", U + "MeshFunctions/CellsDistance.h", U + "MeshFunctions/ComputeCellsCenterDifference.h", U + "MeshFunctions/EdgesOrientation.h", U + "MeshFunctions/GetCenters.h"],
     [("averaging", "computeCenters"), ("pyramid decomposition", "computeMeasures"), ("orthogonalised center vector", "computeFaceNormals"), ("cell distances", "computeCellsDistance, computeCellsCenterDifference"), ("left-hand orientation", "edgesOrientation")],
     "the numbers in the returned data containers")
prop("C12", "Binary serialization round-trips every supported value",
     "Reading back a sequence of values in the order and types in which they were written yields equal values, consumes exactly the bytes written and works regardless of what the targets held before. This holds for numbers, enumerations, strings, tuples, pairs, nested containers of any size (including empty ones), associative containers, bounded arrays and user types described by traits or by custom functions, and through a file.",
     ["inputs", "programs"], "every composition of the supported types and every value, including empty containers and pre-filled targets",
     "The tests round-trip one value of a few types into fresh targets; combinations, empties and stale targets are unsampled.",
     ["src/GTMesh/BinarySerializer/BinarySerializer.h", "src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h", "src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h", "src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h", "src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h", "src/GTMesh/BinarySerializer/Serializers/SerializeTuple.h", "src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h"],
     [("serializer selection", "ClassSelector over Serialize* printers"), ("per-kind encoding", "Serialize*::serialize / deserialize")],
     "the values produced by reading")
prop("C13", "The serializer is a faithful byte stream under any interleaving of use",
     "Any interleaving of writes, reads, resets, clears and file transfers behaves like a byte queue with a reading position: writing appends and never disturbs the unread rest, reading returns bytes in order, resetting starts again at the first byte, clearing empties it. Data loaded from a file is exactly the data saved and is read from its beginning, and a copy of a serializer reads independently of the original. Memory outside the stream is never accessed by these operations.",
     ["histories"], "every sequence of operations that reads no more than what was written",
     "The tests write everything first and read everything afterwards once; interleavings, reuse after loading and copies are never exercised.",
     ["src/GTMesh/BinarySerializer/BinarySerializer.h"], [("byte buffer with reading position", "BinarySerializer::write, read, addNext, readNext, clear, resetIterator, isIteratorValid, saveToFile, loadFromFile")],
     "the bytes returned by reading and the content of the stream")
prop("C14", "Traits read and write exactly the member they describe",
     "Reading, writing or referencing the member at a position of the traits of a class reads or writes exactly that member of exactly that object, whether the member is described by a member pointer, member functions, a function returning a reference, free functions or function objects, and whether the object is given by reference or by pointer. A written value is the one read back, no other member and no other object changes. Names and positions are those declared, applying a functor visits every described member once in the declared order, traits bound to an object are preferred to the default ones for their class, and the arrays of a mesh data container are accessible in the same way under names that tell their dimensions.",
     ["inputs", "programs"], "every described class, every kind of access and every value",
     "The tests describe two small classes; mixtures of access kinds, bound traits and the traits of mesh data are not sampled.",
     ["src/GTMesh/Traits/Traits.h", "src/GTMesh/Traits/MemberAccess/MemberAccess.h", "src/GTMesh/Traits/MemberAccess/GetSetAccess.h", "src/GTMesh/Traits/TraitsBind/TraitsBind.h", "src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h"], [("reference table", "Traits<...>::getValue, setValue, getAttr, getName"), ("access kinds", "MemberAccess, GetSetAccess")],
     "the members of the described objects")
prop("C15", "Arithmetic over described classes is member-wise",
     "Arithmetic operators and functions over classes described by traits apply the operation to every described member separately, scalars act on every member, and compound assignment agrees with the corresponding operator. Members not described are left alone and operands are not modified by the non-assigning forms. Minimum, maximum and sum over members are those of the member values.",
     ["inputs", "programs"], "every class with described numeric (or recursively described) members and every value",
     "The tests apply a few operators to one class; the other operators, operand orders and nested classes are never executed.",
     ["src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h"], [("member loops", "operator+, -, *, /, +=, ... ; traitsMax, ...")],
     "the members of the results and operands")
prop("C16", "Writing and reading a mesh in FPMA format preserves the mesh",
     "A three-dimensional mesh written in FPMA format and read back has the same vertices (to the written precision) and isomorphic incidence: the same cells bounded by faces over the same vertices, each face attached to the same cells on both sides. The mesh that was read is well formed whatever the reading mesh contained before, and face rings visit every face of a cell exactly once.",
     ["inputs", "histories"], "every well-formed polyhedral mesh and every previous content of the target",
     "The tests read one mesh and write it without reading the result back in any systematic way.",
     [U + "MeshIO/MeshReader/FPMAMeshReader.h", U + "MeshIO/MeshWriter/FPMAMeshWriter.h"], [("text format", "FPMAMeshReader::loadFromStream, FPMAMeshWriter::writeToStream")],
     "the mesh object after loading")
prop("C17", "Writing and reading a mesh in VTK format preserves the mesh",
     "A mesh written in VTK format and read back has the same vertices and the same cells over the same vertices, including polygons, and polyhedral cells are written as standard cells or pyramids and tetrahedra around their centers that fill the same volume. The mesh that was read is well formed, each interior face separates exactly the two cells that share its vertices, and unsupported content is refused.",
     ["inputs"], "every planar mesh of polygons and every three-dimensional mesh of the supported cell shapes",
     "The tests read one file and write it; shapes, vertex orders and shared edges other than those in it are unsampled.",
     [U + "MeshIO/MeshReader/VTKMeshReader.h", U + "MeshIO/MeshWriter/VTKMeshWriter.h"], [("reader", "VTKMeshReader::loadFromStream, loadCells, makeEdges"), ("writer", "VTKMeshWriter::indexMesh, writeToStream")],
     "the written text and the mesh object after loading")
prop("C18", "Cell data written to VTK is read back for the same cells",
     "Data of cells written as VTK scalar or vector attributes and read back into a data container give the same value (to the written precision) for the same cell and the same described member, whatever the order of the attributes. When the written mesh splits cells, each written part carries the value of the cell it came from.",
     ["inputs", "programs"], "every mesh, every described data type of scalar and vector members and every value",
     "The tests write one data type and never compare what is read back member by member.",
     [U + "MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h", U + "MeshDataContainer/MeshDataIO/VTKMeshDataReader.h"], [("writer", "VTKMeshDataWriter::writeToStream"), ("reader", "VTKMeshDataReader::readFromStream")],
     "the written text and the data container after reading")
prop("C19", "Exported text shows exactly the exported value",
     "Exporting a variable renders every supported value completely: numbers and booleans by value, containers element by element in order with the right number of separators, tuples and pairs by component, associative containers by entry and described classes by name and value of every member. The JSON log stays a single well-formed document whatever sequence of variables is logged (numbers, booleans, texts that need no escaping, lists and described classes), its records are separated and complete after the log is destroyed or created anew, and its text equals what was exported.",
     ["inputs", "histories", "programs"], "every nesting of supported types, every value and every sequence of log calls",
     "The tests print some variables to the terminal and compare nothing; separators and nesting at empty or deep structures are unsampled.",
     ["src/GTMesh/Debug/VariableExport.h", "src/GTMesh/Debug/JSONLogger.h", "src/GTMesh/Debug/Printers/PrintIterable.h", "src/GTMesh/Debug/Printers/PrintIndexable.h", "src/GTMesh/Debug/Printers/PrintTraitedClass.h", "src/GTMesh/Debug/Printers/PrintTuple.h"], [("printer selection", "ClassSelector over Print*"), ("JSON log", "JSONLogger")],
     "the text produced in the stream or file")
prop("C20", "The mesh signature depends only on, and reacts to, the mesh content",
     "Computing the signature of a mesh twice without changing it gives the same value, it is the value that is reported afterwards, and computing it changes no element of the mesh. Two meshes with equal elements have equal signatures.",
     ["inputs", "histories"], "every mesh and every pair of equal meshes",
     "The tests never compute a signature of two equal meshes; equality requires that no stray memory enters the value.",
     [U + "MeshElements/MeshElements.h"], [("hash of the element arrays", "MeshElements::updateSignature, getSignature")],
     "the value returned by the signature calls")

TECH = "deductive verification: contracts and loop invariants discharged over the compiled source (gtv verification conditions, z3/cvc5)"
NOTE = ("Every obligation generated from the current source is discharged by z3 or cvc5; trusted: the gtv VC generator, clang's front end, the listed contracts of standard library functions. "
        "A seeded concrete run of the same code against an independent oracle accompanies the proof to supply failing inputs; it is bounded and not counted as proved.")
CLAIMED = {}   # id -> level_note
NA = {}


def claim(id, level="proof", tech=TECH, note=NOTE):
    CLAIMED[id] = (level, tech, note)


exec(open(os.path.join(ROOT, "tools", "claims.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "true",
         "hooks": {"guard": "none", "enable": "no hooks: the checks compile the unmodified headers of /repo/src", "source_commits": []},
         "checks": [{"property": i, "quick_cmd": "python3-vt -m gtv.run %s --tier quick" % i, "thorough_cmd": "python3-vt -m gtv.run %s --tier thorough" % i,
                     "technique": t, "level": l, "level_note": n} for i, (l, t, n) in sorted(CLAIMED.items())],
         "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "no check registered yet")} for p in P if p["id"] not in CLAIMED],
         "notes": "Violations are decided by failed obligations (or vacuous covers) of the deductive verifier gtv; concrete failing inputs on the real code are reported where the accompanying seeded run finds one."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

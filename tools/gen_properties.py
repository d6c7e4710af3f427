import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
S='src/'
p('C01','Reading a TMF stream never panics',
 'For every byte sequence supplied as a TMF file, every TMF reading entry point (one mesh or many, blocking or async) returns a mesh list or an error: it never panics, whatever headers, counts, lengths, precisions, names or payload the bytes declare. This holds in every supported feature configuration.',
 ['inputs','configurations'],'all byte strings of any length; default features and the tokio/byte_rw/fast_trig/triangulation feature set',
 'The tests read a few well formed files; a panic needs a crafted count, precision, minimum index or truncated payload, of which there are unboundedly many.',
 [S+'tmf_importer.rs',S+'tmf.rs',S+'vertices.rs',S+'normals.rs',S+'uv.rs',S+'tangents.rs',S+'custom_data.rs',S+'unaligned_rw.rs',S+'read_extension.rs'],
 [('declared sizes and precisions are checked before use','read_* decoders'),('all raw reads return io::Result','read_extension.rs')],
 ['TMFMesh::read_tmf','TMFMesh::read_tmf_one','TMFMesh::read_tmf_async','TMFMesh::read_tmf_one_async'])
p('C02','Reading an OBJ stream never panics',
 'For every byte sequence supplied as an .obj file, the OBJ reading entry points return meshes or an error and never panic, including for malformed faces, indices that refer to elements that do not exist, polygons of any size and missing fields.',
 ['inputs','configurations'],'all byte strings; with and without triangulation',
 'Tests read three well formed .obj files; out of range indices, huge polygons and short lines are not among them.',
 [S+'obj.rs',S+'model_importer.rs',S+'triangulation.rs',S+'utilis.rs'],
 [('every field access of a line is checked','obj.rs match_split'),('rebasing subtracts a proven minimum','utilis.rs fast_prune')],
 ['TMFMesh::read_from_obj','TMFMesh::read_from_obj_one'])
p('C03','Declared sizes are bounded before memory is reserved',
 'While reading a TMF file, no count or length taken from the file makes the reader reserve room for more than 2147483648 elements or bytes at once; a larger declared count or length is refused with the segment-too-long error before anything is reserved for it.',
 ['inputs'],'every value of every 16, 32 and 64 bit count or length field in a TMF file',
 'Only specific enormous values in a specific field expose a missing bound; the tests contain none.',
 [S+'tmf.rs',S+'tmf_importer.rs',S+'vertices.rs',S+'normals.rs',S+'uv.rs',S+'tangents.rs',S+'custom_data.rs'],
 [('MAX_SEG_SIZE comparison','each decoder and EncodedSegment::read')],['TMFMesh::read_tmf'],
 [dict(name='MAX_SEG_SIZE',meaning='largest accepted count or length (0x80000000)',where='src/lib.rs')])
p('C04','Impossible stored precisions are refused',
 'Every segment kind that stores a bit precision is refused with the invalid-precision error, carrying the stored value, when that precision is 64 bits or more; such a segment is never decoded into made-up values.',
 ['inputs'],'every precision byte of every segment kind that has one',
 'The tests only store precisions the writer chose, all far below 64.',
 [S+'vertices.rs',S+'normals.rs',S+'uv.rs',S+'tangents.rs',S+'custom_data.rs',S+'tmf_importer.rs'],
 [('InvalidPrecision check after reading the precision byte','decoders')],['TMFMesh::read_tmf'])
p('C05','A failed or short read is always reported as an error',
 'Whenever the underlying reader fails or ends before the bytes a file promised, the TMF and OBJ reading entry points return an error: they never return Ok with partial or invented data after a read failed.',
 ['inputs','fault_sequences'],'every read of every reading entry point failing or ending at any position',
 'Tests read from complete in-memory or on-disk files that never fail.',
 [S+'tmf_importer.rs',S+'tmf.rs',S+'read_extension.rs',S+'unaligned_rw.rs',S+'obj.rs'],
 [('error propagation with ?','all decoders'),('zero-length read is UnexpectedEof','unaligned_rw.rs')],['TMFMesh::read_tmf','TMFMesh::read_from_obj'])
p('C06','A failed write is always reported as an error',
 'Whenever the underlying writer fails or accepts fewer bytes than it is given, the TMF and OBJ writing entry points return an error and do not panic; when they return Ok every byte they produced has been handed to the underlying writer.',
 ['fault_sequences'],'every write or flush of every writing entry point failing at any position',
 'Tests write to growing vectors and healthy files only.',
 [S+'tmf_exporter.rs',S+'tmf.rs',S+'obj.rs',S+'unaligned_rw.rs',S+'vertices.rs',S+'normals.rs',S+'uv.rs',S+'tangents.rs',S+'custom_data.rs'],
 [('write_all with ?','exporter'),('final flush of the buffered writer','obj.rs write_obj')],['TMFMesh::write_tmf','TMFMesh::write_obj'])
p('C07','Lengths and counts are never silently truncated on write',
 'Every length or count the TMF writer stores equals the true length or count of what follows it: when a name, a mesh list, a segment list or a segment body does not fit its field, writing fails with an error instead of storing a wrapped number.',
 ['inputs'],'all mesh lists, names and attribute arrays, of any length',
 'The overflowing cases need names over 65535 bytes or more than 65535 segments; the tests have none.',
 [S+'tmf_exporter.rs',S+'tmf.rs',S+'custom_data.rs'],
 [('conversion of lengths to field width','write_mesh_name, write_mesh, write_tmf, EncodedSegment::write')],['TMFMesh::write_tmf','TMFMesh::write_tmf_one'])
p('C08','Every attribute is written and read back as itself',
 'Each mesh attribute (vertices, normals, UVs, tangents, the index list of each, and each kind of custom data) is written under its own segment code and a segment with that code is read back into that same attribute and no other; segments with an unknown code are skipped without affecting the mesh.',
 ['inputs'],'all meshes with any subset of attributes, all segment codes',
 'Attribute combinations and all 65536 codes are not enumerable by the sampled files; a mixed-up pair can cancel out in meshes where both lists are equal.',
 [S+'tmf.rs',S+'tmf_exporter.rs',S+'tmf_importer.rs',S+'lib.rs'],
 [('segment iterator','tmf_exporter.rs MeshSegIter'),('encode/decode/apply dispatch','tmf.rs DecodedSegment')],['TMFMesh::write_tmf','TMFMesh::read_tmf'])
p('C09','Writer and reader agree on the layout of every segment',
 'For the file header, the mesh header, the segment header and the body of every segment kind, the writer emits the same sequence of fields, with the same widths, byte order, order and repetition, as the reader consumes.',
 ['inputs'],'all meshes, and all sequences of fields the writer can emit',
 'A layout disagreement that only shows for some counts, precisions or kinds is not covered by a handful of files.',
 [S+'tmf_exporter.rs',S+'tmf_importer.rs',S+'tmf.rs',S+'vertices.rs',S+'normals.rs',S+'uv.rs',S+'tangents.rs',S+'custom_data.rs'],
 [('paired save/read functions','segment modules')],['TMFMesh::write_tmf','TMFMesh::read_tmf'])
p('C10','Dequantisation inverts quantisation component by component',
 'For every quantised attribute, decoding a stored component uses the same axis, offset, span, sign and scale the encoder used for that component, and the bounding box the encoder stores is the true minimum and maximum of that component over all elements; so, apart from rounding to the stored grid, each component comes back as itself.',
 ['inputs'],'all attribute arrays and precisions',
 'Swapped axes or a wrong extent are invisible on symmetric or cubic sample models and within the loose tolerance of the tests.',
 [S+'vertices.rs',S+'uv.rs',S+'normals.rs',S+'tangents.rs',S+'custom_data.rs'],
 [('quantise/dequantise formula pairs','save_*/read_*')],['TMFMesh::write_tmf','TMFMesh::read_tmf'])
p('C11','Decoded data keeps file order whatever the scheduling',
 'The mesh produced by reading a file depends only on the order of segments in the file: segments are applied to the mesh one by one in file order, and on writing they are emitted in a fixed order, no matter in which order the concurrent decode or encode tasks finish.',
 ['schedules','configurations'],'all completion orders of decode and encode tasks; blocking executor and tokio runtime',
 'Tests run tiny files whose tasks practically always finish in order.',
 [S+'tmf_importer.rs',S+'tmf_exporter.rs',S+'tmf.rs'],
 [('join_all keeps input order','import_mesh, write_mesh'),('single apply loop','import_mesh')],['TMFMesh::read_tmf','TMFMesh::write_tmf'])
p('C12','No uninitialised or out-of-bounds memory is ever exposed',
 'No input, precision or early error lets the library expose uninitialised or out-of-bounds memory: every element made visible by unchecked length changes has been written first on every path, and no other unchecked memory operation is reachable from the public API.',
 ['inputs'],'all inputs and all paths to an unsafe operation',
 'Uninitialised memory usually looks like plausible zeros, and the odd-length and zero-precision paths need specific files.',
 [S+'tmf_importer.rs',S+'utilis.rs'],
 [('set_len after full initialisation','read_default_triangles')],['TMFMesh::read_tmf'])
p('C13','Mesh accessors touch only their own attribute',
 'Setting an attribute stores exactly the given data and returns the previous data, appending adds the given data after the existing data, getting returns the stored data unchanged, and none of them changes any other attribute.',
 ['histories'],'all sequences of set, append and get calls on any mesh',
 'The accessor matrix (8 attributes by 3 operations, on present and absent data) is only sampled.',
 [S+'lib.rs'],[('one field per attribute','TMFMesh')],['TMFMesh::set_*','TMFMesh::append_*','TMFMesh::get_*'])
p('C14','A verified mesh is safe to index',
 'When integrity verification succeeds, every index list of vertices, normals and UVs refers only to existing elements of a present array, every normal has a length within 0.001 of one, and every UV component lies between 0 and 1; when verification fails, at least one of these conditions is really violated.',
 ['inputs'],'all meshes',
 'Off-by-one indices, NaN components and single bad components among many need specific data.',
 [S+'verify.rs'],[('per attribute checks','verify.rs')],['TMFMesh::verify'])
p('C15','Reordering and unifying keep data and indices paired',
 'Reordering or unifying index data replaces the data array and the index list of an attribute only together, and neither goes away. The new data array is made from that attribute\'s own data and its own index list (when unifying, other index lists may take part as well) and from no other attribute\'s data; the new index list is made from the attribute\'s own index list (when unifying, together with the other index lists) and from no data. An attribute that lacks its data or its index list, everything the operation does not process and the custom data stay as they were.',
 ['inputs'],'all meshes with any subset of attributes',
 'Cross-attribute mix-ups are invisible when index lists coincide, as they do in most sample data.',
 [S+'lib.rs',S+'unify_data.rs',S+'utilis.rs'],[('paired set calls and the flow of data and index lists into them','reorder_data, unify_index_data')],['TMFMesh::reorder_data','TMFMesh::unify_index_data'])
p('C16','Exported OBJ faces refer to their own mesh',
 'In an exported .obj file with any number of meshes, each face index equals the mesh\'s own zero-based index plus one plus the number of elements of that kind written for all earlier meshes, whichever attributes the earlier meshes have.',
 ['inputs'],'all lists of meshes with any subset of attributes',
 'Tests export at most a couple of meshes that have every attribute.',
 [S+'obj.rs'],[('index offsets accumulated per mesh','write_obj, save_obj')],['TMFMesh::write_obj','TMFMesh::write_obj_one'])
p('C17','Results depend only on the arguments',
 'The public operations neither touch the file system, network, environment, clock, standard streams nor any random source, nor let hash-table iteration order influence a result: the same arguments always give the same result and bytes.',
 ['inputs','configurations'],'all calls of the public API; random hash seeds',
 'A single run samples one hash seed and cannot see absent side effects.',
 [S+'unify_data.rs',S+'lib.rs',S+'tmf_exporter.rs',S+'tmf_importer.rs',S+'obj.rs'],
 [('sorting after hash map iteration','unify_data.rs')],['whole public API'])
p('C18','Reading consumes exactly the file',
 'A successful TMF read takes from the reader exactly the bytes of one TMF file, so data following it in the same stream is left untouched; payload read-ahead happens only inside a segment body that was already read in full.',
 ['inputs','histories'],'all streams holding a TMF file followed by other data',
 'Tests read whole files and never look at what follows.',
 [S+'tmf_importer.rs',S+'tmf.rs',S+'unaligned_rw.rs'],[('read_exact on the caller\'s reader only','importer')],['TMFMesh::read_tmf'])
p('C19','Foreign and newer files are refused up front',
 'A stream that does not start with the TMF signature is refused with the not-a-TMF-file error, and a file that requires a newer reader version is refused with the newer-version error, before any mesh data is read; files requiring an equal or older version are not refused for their version.',
 ['inputs'],'all header contents, in particular all required major and minor version pairs',
 'Tests read files with one fixed header.',
 [S+'tmf_importer.rs'],[('header check','read_tmf_header')],['TMFMesh::read_tmf'])
p('C20','Index expansion is all or nothing',
 'Expanding an attribute into a flat buffer returns one element per index, each being the element the index names, and returns nothing at all when the data or indices are absent or any index is out of range; it never panics or returns a partial buffer.',
 ['inputs'],'all meshes',
 'Only valid meshes are expanded in tests.',
 [S+'lib.rs'],[('checked get','get_vertex_buffer, get_normal_buffer, get_uv_buffer')],['TMFMesh::get_vertex_buffer','TMFMesh::get_normal_buffer','TMFMesh::get_uv_buffer'])
p('C21','Writing a TMF file never panics',
 'Writing any mesh list as TMF returns Ok or an error and never panics: empty arrays, degenerate, infinite or NaN coordinates, out-of-range indices and extreme precision settings included.',
 ['inputs','configurations'],'all meshes and all precision settings',
 'Tests write a few well formed models with moderate precision.',
 [S+'tmf_exporter.rs',S+'tmf.rs',S+'vertices.rs',S+'normals.rs',S+'uv.rs',S+'tangents.rs',S+'custom_data.rs'],
 [('precision clamping','save_* functions'),('edge length search','calc_shortest_edge')],['TMFMesh::write_tmf','TMFMesh::write_tmf_one'])
p('C22','Sharing equal index lists loses nothing',
 'Combining equal index lists into a shared one and splitting lists into several segments keeps, for every attribute, exactly the same sequence of indices or elements once the segments are applied again.',
 ['inputs'],'all meshes with any coincidence of index lists',
 'The interplay of which lists coincide is only sampled.',
 [S+'tmf.rs',S+'tmf_exporter.rs'],[('merge, mask bits, apply','DecodedSegment'),('recursive split','opt_tris, opt_vertices')],['TMFMesh::write_tmf','TMFMesh::read_tmf'])
p('C23','Custom data is stored under its exact name',
 'Custom data is accepted exactly when its name is 1 to 255 bytes long, is found again only under exactly the same name, and among equal names the first one added is the one found.',
 ['inputs','histories'],'all names and all sequences of additions and look-ups',
 'Tests use a few short names; prefixes, 255/256 byte and empty names are not sampled.',
 [S+'custom_data.rs',S+'lib.rs'],[('length checks','CustomDataSegment::new'),('length and byte comparison','lookup_custom_data')],['TMFMesh::add_custom_data','TMFMesh::lookup_custom_data'])
p('C24','Single-mesh readers accept exactly one mesh',
 'The single-mesh readers return the mesh and its name if and only if the file holds exactly one mesh; an empty list gives the no-meshes error and more than one gives the too-many-meshes error.',
 ['inputs'],'all files with any number of meshes','Tests only use files with one mesh.',
 [S+'lib.rs'],[('second next() must be None','read_tmf_one, read_from_obj_one')],['TMFMesh::read_tmf_one','TMFMesh::read_tmf_one_async','TMFMesh::read_from_obj_one'])
p('C25','OBJ faces resolve to the data lines they name',
 'In a mesh read from an .obj file the first index of each corner of a triangle line is in the vertex index list, the second in the UV index list and the third in the normal index list, in corner order, and each resolves to the v, vt or vn line of that one-based number counted from the start of the file, coordinates unchanged and in order. Every o line starts a mesh of that name, which holds the faces that follow it up to the next o line and no others.',
 ['inputs','histories'],'all triangle, vertex, UV and normal lines, in files of one or more objects','Swapped lists cancel out when the index lists coincide, and unused leading elements are pruned and the indices rebased differently for every list.',
 [S+'obj.rs',S+'model_importer.rs'],[('load_face, push_face','obj.rs, model_importer.rs')],['TMFMesh::read_from_obj'])
p('C26','Bit packing is lossless at every width and alignment',
 'A value written with the bit packer at any width from 1 to 63 and any bit alignment is read back exactly, bit for bit, by the bit unpacker at the same width, singly or in pairs; widths, alignments and how many bytes each underlying read delivers do not matter.',
 ['inputs','histories','schedules'],'all widths, alignments, values and read chunkings',
 'There are 63 widths times 64 alignments times 2^63 values; tests sample a few, always over full buffers.',
 [S+'unaligned_rw.rs'],[('most significant bit first packing','UnalignedWriter, UnalignedReader')],['UnalignedWriter::write_unaligned','UnalignedReader::read_unaligned','UnalignedReader::read2_unaligned'])
p('C27','Unsupported compression is refused, never misread',
 'A segment of a known kind whose compression code is not plain is refused with an error that names that code, and an unknown compression code is refused for every segment; such a body is never decoded as if it were plain data.',
 ['inputs'],'all segment kinds times all 256 compression codes','The writer only produces plain segments, so tests never see another code.',
 [S+'tmf.rs',S+'tmf_importer.rs'],[('compression match','decode_triangle_seg, DecodedSegment::decode')],['TMFMesh::read_tmf'])
p('C28','Index lists survive exactly',
 'Every index list of a mesh, and every piece of custom index or integer data, is read back from the written file with exactly the same values in exactly the same order and number.',
 ['inputs'],'all index lists and custom integer lists of up to 2^24 entries, in all combinations of attributes',
 'Packing depends on the smallest and largest value, on the bit width they need and on which lists coincide; a few sample models cover few of these.',
 [S+'tmf.rs',S+'tmf_exporter.rs',S+'tmf_importer.rs',S+'custom_data.rs',S+'vertices.rs',S+'utilis.rs'],
 [('minimum subtracted and added back','save_triangles, read_default_triangles'),('bit width from the largest value','save_triangles, CustomData::write')],['TMFMesh::write_tmf','TMFMesh::read_tmf'])
p('C29','Exported OBJ text states every element once, in order, exactly',
 "An exported .obj file announces each mesh by its own name and then contains, for each of its vertices, normals and texture coordinates, exactly one v, vn or vt line in array order with the components in order and printed without losing digits, and for each triangle one f line listing its corners in order with one index for each index list the mesh has and none for a list it does not have.",
 ['inputs'],'all lists of meshes with any subset of attributes, arrays of any length and content',
 'Skipped, repeated or reordered elements, swapped components and lost digits show only for particular data; tests check that an export succeeds.',
 [S+'obj.rs'],[('one line per element','save_obj')],['TMFMesh::write_obj','TMFMesh::write_obj_one'])
p('N01','Round-trip error stays within the requested precision',
 'Each coordinate read back from a written file differs from the original by no more than the tolerance requested in the precision settings.',
 ['inputs'],'all meshes and precision settings','Numerical error over all floats.',
 [S+'vertices.rs',S+'normals.rs',S+'uv.rs'],[('precision selection','save_*')],['TMFMesh::write_tmf','TMFMesh::read_tmf'])
p('N02','Triangulation covers the polygon',
 'Triangulating a polygon face yields triangles that tile that polygon without overlap.',
 ['inputs'],'all polygons','Geometric property over all float polygons.',
 [S+'triangulation.rs'],[('ear clipping','triangulate')],['TMFMesh::read_from_obj'])
p('N03','Written files are no larger than plain storage',
 'A written TMF file is never larger than storing the same attributes as raw arrays plus headers.',
 ['inputs'],'all meshes','Sizes depend on run-time data distributions.',
 [S+'tmf_exporter.rs'],[('split score','calc_spilt_score')],['TMFMesh::write_tmf'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P), [x['id'] for x in P if len(x['title'])>80])

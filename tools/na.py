NA = {
 'C11': 'filling, copying, converting and comparing walk strided views of seven element types through element iterators and memory blocks; the walk is not under contract yet, so nothing decides the property for every shape',
 'C12': 'the element loops exist once per element type, layout and number of dimensions as templates over the iterators of C11; without contracts on the walk no obligation decides them',
 'C15': 'the reader and the writer are recursive over value trees held in std::map and std::string; the verifier has no model of their contents, and numbers pass through printf and strtod, which no contract within reach specifies',
 'C16': 'every helper is a search over the characters of std::string by find, substr and replace; the verifier follows whole texts (C26) but has no theory of searching inside them',
 'C25': 'the component search is a flood fill over a work list; its invariant (every marked pixel is connected to the start and its neighbours are marked or listed) needs a reachability argument the verifier does not have yet',
}

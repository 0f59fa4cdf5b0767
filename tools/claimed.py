# property -> (technique, level note)
NOT_YET = {}
TRUST = "Random search with a pinned seed: no absence proof. Trusts the independent PDF model in harness/ref and the Go standard library."
CLAIMED = {
 "C01": ("property-based testing (rapid): generated multi-revision files vs byte identity and a reference model", TRUST),
 "C02": ("property-based testing (rapid): generated files vs the reference model of every object", TRUST),
 "C03": ("stateful property-based testing (rapid): generated update histories vs a model of each revision", TRUST),
 "C07": ("property-based testing (rapid): encoders vs decoders, foreign encodings, damaged data", TRUST),
 "C23": ("stateful property-based testing (rapid): generated error chains and collector histories vs a list model", TRUST),
 "C04": ("stateful property-based testing (rapid): generated writer call histories vs an independent strict PDF reader and a model of what was asked", TRUST),
 "C05": ("property-based testing (rapid): documents encrypted by an independent implementation of the standard handler, opened with user, owner and wrong passwords, vs the unencrypted model", TRUST),
 "C06": ("property-based testing (rapid): generated writer calls under encryption, searched for planted markers and opened by an independent reader", TRUST),
 "C11": ("property-based testing (rapid): generated metadata records and bookmark forests, written and foreign, vs the model", TRUST),
 "C09": ("property-based testing (rapid): generated content programs, laid out at random or drawn with the builder, vs a model interpreter", TRUST),
 "C10": ("property-based testing (rapid): generated fonts (encodings, Differences, ToUnicode) and code strings vs independent tables", TRUST),
 "C12": ("property-based testing (rapid): generated documents of images, forms and fonts, and directory exports, vs the model", TRUST),
 "C13": ("stateful property-based testing (rapid): generated edit histories on generated documents vs a page-list model, read by an independent reader", TRUST),
 "C14": ("property-based testing (rapid): generated selections, splits and merges of generated documents vs the source object graph, read by an independent reader", TRUST),
 "C16": ("property-based testing (rapid): generated documents with forms and form builder programs vs the model of every field", TRUST),
 "C17": ("stateful property-based testing (rapid): generated fill histories vs a model of the form, every other object compared by an independent reader", TRUST),
 "C18": ("property-based testing (rapid): generated field rules and values at their edges vs a model of the rules", TRUST),
 "C19": ("stateful property-based testing (rapid): generated documents with XFA packets and replacement histories vs the model, every other object compared by an independent reader", TRUST),
 "C20": ("property-based testing (rapid): generated structured values of every packet kind vs their round trip through the generated XML and re-renderings of it", TRUST),
 "C21": ("property-based testing (rapid): generated TrueType and OpenType fonts and character sets; embedded fonts read by an independent PDF, CMap and glyph reader vs the source font", TRUST),
 "C15": ("property-based testing (rapid): generated pairs of models (rewrites, edits, strangers) rendered as documents; the reported differences vs those of the models, both ways round", TRUST),
 "C08": ("fuzzing (rapid): generated damage, cyclic graphs, extreme sizes and repetitions of documents, fonts, filters and XML; every reader under panic, CPU time, allocation and input bounds", TRUST),
 "C22": ("property-based testing (rapid): generated programs of calls run again on the same draws, one after another, after other programs and at once under the race detector; results, bytes and arguments compared", TRUST),
 "C24": ("property-based testing (rapid): generated page trees and annotations in every written form vs the model, and the JSON and directory forms vs the content", TRUST),
 "C25": ("model-based property-based testing (rapid): generated programs of builder calls in any order vs the model of the document, read by an independent reader and content interpreter", TRUST),
 "C26": ("property-based testing (rapid): the built command line run in scratch directories on generated documents, data and options vs the model, and on generated reasons to fail vs the state of the files before", TRUST),
}

NA.append(dict(id='N01', title='Semantic roles are predicted consistently', statement='Every text block receives exactly one semantic role, the one with the highest predicted probability.', over=['inputs'], text='all documents', why='The model is not part of the tests.', files=['src/SemanticRolesPrediction.cpp'], mech=[('TensorFlow model through cppflow', 'SemanticRolesPrediction')], observe=['text block roles'],
     reason='cppflow and TensorFlow are not installed, the file does not compile here and its behaviour is that of an external learned model: no contract on it could be discharged or replayed'))
NA.append(dict(id='N02', title='Detected layout agrees with what a human sees', statement='Words, lines, blocks and reading order agree with the visual layout of the page as perceived by a reader.', over=['inputs'], text='all PDF files', why='There is no formal oracle.', files=['src/WordsDetection.cpp', 'src/TextLinesDetection.cpp', 'src/TextBlocksDetection.cpp', 'src/PageSegmentation.cpp'], mech=[('layout heuristics', 'detection modules')], observe=['extracted text'],
     reason='accuracy of heuristics is statistical: there is no postcondition to state; the conservation and structure guarantees around the heuristics are claimed instead'))

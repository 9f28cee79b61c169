SEEDS = []
def S(**k): SEEDS.append(k)
DEMO=open('/verif/seeded/c02-compress-next/demo.cpp').read()
S(id='c02-compress-next', property='C02',
  edits=[('spoc/compression.h', '''    deflator.s.next_in = const_cast<unsigned char *> (p);
''', '''    deflator.s.next_in = const_cast<unsigned char *> (p);

    // Compress into the output buffer
    deflator.s.next_out = &output_buffer[0];
'''),('spoc/compression.h', '''        deflator.s.avail_out = BUFFER_SIZE;
        deflator.s.next_out = &output_buffer[0];
''', '''        deflator.s.avail_out = BUFFER_SIZE;
''')],
  needs='a field whose compressed data is longer than 1 MB, so that the output buffer is used more than once',
  breaks='the second megabyte of compressed data is not the data of the field, the file cannot be read back',
  cpp=DEMO)

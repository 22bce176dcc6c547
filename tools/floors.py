# Units per property, counted on the reviewed tree (tools/mkfloors.py).
FLOORS = {'alloc': {'C01': 44,
           'C02': 39,
           'C03': 42,
           'C04': 1,
           'C05': 7,
           'C06': 7,
           'C07': 22,
           'C08': 3,
           'C09': 6,
           'C10': 3,
           'C11': 24,
           'C12': 44,
           'C13': 40,
           'C14': 82,
           'C15': 78,
           'C16': 24,
           'C17': 37,
           'C18': 52,
           'C19': 11,
           'C20': 2,
           'C21': 418,
           'C22': 15,
           'C24': 29,
           'C25': 63,
           'C26': 28,
           'C27': 76,
           'C28': 56,
           'C29': 325,
           'C30': 112,
           'C31': 10,
           'C33': 710},
 'bare': {'C01': 30,
          'C02': 27,
          'C03': 28,
          'C04': 1,
          'C05': 5,
          'C06': 5,
          'C07': 21,
          'C08': 2,
          'C09': 6,
          'C10': 3,
          'C11': 8,
          'C12': 31,
          'C13': 27,
          'C14': 55,
          'C15': 51,
          'C16': 24,
          'C17': 34,
          'C18': 49,
          'C19': 8,
          'C20': 2,
          'C21': 374,
          'C24': 21,
          'C25': 61,
          'C26': 28,
          'C27': 71,
          'C28': 50,
          'C29': 270,
          'C30': 112,
          'C31': 10,
          'C33': 617},
 'default': {'C01': 45,
             'C02': 40,
             'C03': 43,
             'C04': 1,
             'C05': 7,
             'C06': 7,
             'C07': 22,
             'C08': 3,
             'C09': 6,
             'C10': 3,
             'C11': 26,
             'C12': 45,
             'C13': 41,
             'C14': 84,
             'C15': 80,
             'C16': 24,
             'C17': 38,
             'C18': 53,
             'C19': 11,
             'C20': 2,
             'C21': 421,
             'C22': 22,
             'C24': 29,
             'C25': 63,
             'C26': 28,
             'C27': 76,
             'C28': 58,
             'C29': 328,
             'C30': 112,
             'C31': 10,
             'C33': 716},
 'log': {'C01': 45,
         'C02': 40,
         'C03': 43,
         'C04': 1,
         'C05': 7,
         'C06': 7,
         'C07': 22,
         'C08': 3,
         'C09': 6,
         'C10': 3,
         'C11': 26,
         'C12': 45,
         'C13': 41,
         'C14': 84,
         'C15': 80,
         'C16': 24,
         'C17': 38,
         'C18': 53,
         'C19': 11,
         'C20': 2,
         'C21': 309,
         'C22': 22,
         'C24': 29,
         'C25': 63,
         'C26': 28,
         'C27': 76,
         'C28': 58,
         'C29': 328,
         'C31': 10,
         'C33': 604},
 'tracing': {'C01': 45,
             'C02': 40,
             'C03': 43,
             'C04': 1,
             'C05': 7,
             'C06': 7,
             'C07': 22,
             'C08': 3,
             'C09': 6,
             'C10': 3,
             'C11': 26,
             'C12': 45,
             'C13': 41,
             'C14': 84,
             'C15': 80,
             'C16': 24,
             'C17': 38,
             'C18': 53,
             'C19': 11,
             'C20': 2,
             'C21': 309,
             'C22': 22,
             'C24': 29,
             'C25': 63,
             'C26': 28,
             'C27': 77,
             'C28': 58,
             'C29': 328,
             'C31': 10,
             'C33': 604}}

fn rgb_types() -> Vec<fn(&mut Report)> {
    vec![
        rgb_type::<0, 0, 0>,
        rgb_type::<0, 0, 9>,
        rgb_type::<0, 0, 10>,
        rgb_type::<0, 0, 95>,
        rgb_type::<0, 0, 99>,
        rgb_type::<0, 0, 100>,
        rgb_type::<0, 0, 128>,
        rgb_type::<0, 0, 135>,
        rgb_type::<0, 0, 139>,
        rgb_type::<0, 0, 175>,
        rgb_type::<0, 0, 192>,
        rgb_type::<0, 0, 199>,
        rgb_type::<0, 0, 200>,
        rgb_type::<0, 0, 205>,
        rgb_type::<0, 0, 215>,
        rgb_type::<0, 0, 255>,
        rgb_type::<0, 7, 45>,
        rgb_type::<0, 9, 0>,
        rgb_type::<0, 9, 9>,
        rgb_type::<0, 9, 10>,
        rgb_type::<0, 9, 99>,
        rgb_type::<0, 9, 100>,
        rgb_type::<0, 9, 199>,
        rgb_type::<0, 9, 200>,
        rgb_type::<0, 9, 255>,
        rgb_type::<0, 10, 0>,
        rgb_type::<0, 10, 9>,
        rgb_type::<0, 10, 10>,
        rgb_type::<0, 10, 99>,
        rgb_type::<0, 10, 100>,
        rgb_type::<0, 10, 199>,
        rgb_type::<0, 10, 200>,
        rgb_type::<0, 10, 255>,
        rgb_type::<0, 95, 0>,
        rgb_type::<0, 95, 95>,
        rgb_type::<0, 95, 135>,
        rgb_type::<0, 95, 175>,
        rgb_type::<0, 95, 215>,
        rgb_type::<0, 95, 255>,
        rgb_type::<0, 99, 0>,
        rgb_type::<0, 99, 9>,
        rgb_type::<0, 99, 10>,
        rgb_type::<0, 99, 99>,
        rgb_type::<0, 99, 100>,
        rgb_type::<0, 99, 199>,
        rgb_type::<0, 99, 200>,
        rgb_type::<0, 99, 255>,
        rgb_type::<0, 100, 0>,
        rgb_type::<0, 100, 9>,
        rgb_type::<0, 100, 10>,
        rgb_type::<0, 100, 99>,
        rgb_type::<0, 100, 100>,
        rgb_type::<0, 100, 199>,
        rgb_type::<0, 100, 200>,
        rgb_type::<0, 100, 255>,
        rgb_type::<0, 128, 0>,
        rgb_type::<0, 128, 128>,
        rgb_type::<0, 128, 192>,
        rgb_type::<0, 135, 0>,
        rgb_type::<0, 135, 95>,
        rgb_type::<0, 135, 135>,
        rgb_type::<0, 135, 175>,
        rgb_type::<0, 135, 215>,
        rgb_type::<0, 135, 255>,
        rgb_type::<0, 139, 139>,
        rgb_type::<0, 175, 0>,
        rgb_type::<0, 175, 95>,
        rgb_type::<0, 175, 135>,
        rgb_type::<0, 175, 175>,
        rgb_type::<0, 175, 215>,
        rgb_type::<0, 175, 255>,
        rgb_type::<0, 191, 255>,
        rgb_type::<0, 192, 0>,
        rgb_type::<0, 192, 128>,
        rgb_type::<0, 192, 192>,
        rgb_type::<0, 199, 0>,
        rgb_type::<0, 199, 9>,
        rgb_type::<0, 199, 10>,
        rgb_type::<0, 199, 99>,
        rgb_type::<0, 199, 100>,
        rgb_type::<0, 199, 199>,
        rgb_type::<0, 199, 200>,
        rgb_type::<0, 199, 255>,
        rgb_type::<0, 200, 0>,
        rgb_type::<0, 200, 9>,
        rgb_type::<0, 200, 10>,
        rgb_type::<0, 200, 99>,
        rgb_type::<0, 200, 100>,
        rgb_type::<0, 200, 199>,
        rgb_type::<0, 200, 200>,
        rgb_type::<0, 200, 255>,
        rgb_type::<0, 206, 209>,
        rgb_type::<0, 215, 0>,
        rgb_type::<0, 215, 95>,
        rgb_type::<0, 215, 135>,
        rgb_type::<0, 215, 175>,
        rgb_type::<0, 215, 215>,
        rgb_type::<0, 215, 255>,
        rgb_type::<0, 250, 154>,
        rgb_type::<0, 255, 0>,
        rgb_type::<0, 255, 9>,
        rgb_type::<0, 255, 10>,
        rgb_type::<0, 255, 95>,
        rgb_type::<0, 255, 99>,
        rgb_type::<0, 255, 100>,
        rgb_type::<0, 255, 127>,
        rgb_type::<0, 255, 135>,
        rgb_type::<0, 255, 175>,
        rgb_type::<0, 255, 199>,
        rgb_type::<0, 255, 200>,
        rgb_type::<0, 255, 215>,
        rgb_type::<0, 255, 255>,
        rgb_type::<1, 1, 1>,
        rgb_type::<1, 7, 45>,
        rgb_type::<2, 2, 2>,
        rgb_type::<2, 7, 45>,
        rgb_type::<3, 3, 3>,
        rgb_type::<3, 7, 45>,
        rgb_type::<4, 4, 4>,
        rgb_type::<4, 7, 45>,
        rgb_type::<5, 5, 5>,
        rgb_type::<5, 7, 45>,
        rgb_type::<6, 6, 6>,
        rgb_type::<6, 7, 45>,
        rgb_type::<7, 7, 7>,
        rgb_type::<7, 7, 45>,
        rgb_type::<8, 7, 45>,
        rgb_type::<8, 8, 8>,
        rgb_type::<9, 0, 0>,
        rgb_type::<9, 0, 9>,
        rgb_type::<9, 0, 10>,
        rgb_type::<9, 0, 99>,
        rgb_type::<9, 0, 100>,
        rgb_type::<9, 0, 199>,
        rgb_type::<9, 0, 200>,
        rgb_type::<9, 0, 255>,
        rgb_type::<9, 7, 45>,
        rgb_type::<9, 9, 0>,
        rgb_type::<9, 9, 9>,
        rgb_type::<9, 9, 10>,
        rgb_type::<9, 9, 99>,
        rgb_type::<9, 9, 100>,
        rgb_type::<9, 9, 199>,
        rgb_type::<9, 9, 200>,
        rgb_type::<9, 9, 255>,
        rgb_type::<9, 10, 0>,
        rgb_type::<9, 10, 9>,
        rgb_type::<9, 10, 10>,
        rgb_type::<9, 10, 99>,
        rgb_type::<9, 10, 100>,
        rgb_type::<9, 10, 199>,
        rgb_type::<9, 10, 200>,
        rgb_type::<9, 10, 255>,
        rgb_type::<9, 99, 0>,
        rgb_type::<9, 99, 9>,
        rgb_type::<9, 99, 10>,
        rgb_type::<9, 99, 99>,
        rgb_type::<9, 99, 100>,
        rgb_type::<9, 99, 199>,
        rgb_type::<9, 99, 200>,
        rgb_type::<9, 99, 255>,
        rgb_type::<9, 100, 0>,
        rgb_type::<9, 100, 9>,
        rgb_type::<9, 100, 10>,
        rgb_type::<9, 100, 99>,
        rgb_type::<9, 100, 100>,
        rgb_type::<9, 100, 199>,
        rgb_type::<9, 100, 200>,
        rgb_type::<9, 100, 255>,
        rgb_type::<9, 199, 0>,
        rgb_type::<9, 199, 9>,
        rgb_type::<9, 199, 10>,
        rgb_type::<9, 199, 99>,
        rgb_type::<9, 199, 100>,
        rgb_type::<9, 199, 199>,
        rgb_type::<9, 199, 200>,
        rgb_type::<9, 199, 255>,
        rgb_type::<9, 200, 0>,
        rgb_type::<9, 200, 9>,
        rgb_type::<9, 200, 10>,
        rgb_type::<9, 200, 99>,
        rgb_type::<9, 200, 100>,
        rgb_type::<9, 200, 199>,
        rgb_type::<9, 200, 200>,
        rgb_type::<9, 200, 255>,
        rgb_type::<9, 255, 0>,
        rgb_type::<9, 255, 9>,
        rgb_type::<9, 255, 10>,
        rgb_type::<9, 255, 99>,
        rgb_type::<9, 255, 100>,
        rgb_type::<9, 255, 199>,
        rgb_type::<9, 255, 200>,
        rgb_type::<9, 255, 255>,
        rgb_type::<10, 0, 0>,
        rgb_type::<10, 0, 9>,
        rgb_type::<10, 0, 10>,
        rgb_type::<10, 0, 99>,
        rgb_type::<10, 0, 100>,
        rgb_type::<10, 0, 199>,
        rgb_type::<10, 0, 200>,
        rgb_type::<10, 0, 255>,
        rgb_type::<10, 7, 45>,
        rgb_type::<10, 9, 0>,
        rgb_type::<10, 9, 9>,
        rgb_type::<10, 9, 10>,
        rgb_type::<10, 9, 99>,
        rgb_type::<10, 9, 100>,
        rgb_type::<10, 9, 199>,
        rgb_type::<10, 9, 200>,
        rgb_type::<10, 9, 255>,
        rgb_type::<10, 10, 0>,
        rgb_type::<10, 10, 9>,
        rgb_type::<10, 10, 10>,
        rgb_type::<10, 10, 99>,
        rgb_type::<10, 10, 100>,
        rgb_type::<10, 10, 199>,
        rgb_type::<10, 10, 200>,
        rgb_type::<10, 10, 255>,
        rgb_type::<10, 99, 0>,
        rgb_type::<10, 99, 9>,
        rgb_type::<10, 99, 10>,
        rgb_type::<10, 99, 99>,
        rgb_type::<10, 99, 100>,
        rgb_type::<10, 99, 199>,
        rgb_type::<10, 99, 200>,
        rgb_type::<10, 99, 255>,
        rgb_type::<10, 100, 0>,
        rgb_type::<10, 100, 9>,
        rgb_type::<10, 100, 10>,
        rgb_type::<10, 100, 99>,
        rgb_type::<10, 100, 100>,
        rgb_type::<10, 100, 199>,
        rgb_type::<10, 100, 200>,
        rgb_type::<10, 100, 255>,
        rgb_type::<10, 199, 0>,
        rgb_type::<10, 199, 9>,
        rgb_type::<10, 199, 10>,
        rgb_type::<10, 199, 99>,
        rgb_type::<10, 199, 100>,
        rgb_type::<10, 199, 199>,
        rgb_type::<10, 199, 200>,
        rgb_type::<10, 199, 255>,
        rgb_type::<10, 200, 0>,
        rgb_type::<10, 200, 9>,
        rgb_type::<10, 200, 10>,
        rgb_type::<10, 200, 99>,
        rgb_type::<10, 200, 100>,
        rgb_type::<10, 200, 199>,
        rgb_type::<10, 200, 200>,
        rgb_type::<10, 200, 255>,
        rgb_type::<10, 255, 0>,
        rgb_type::<10, 255, 1>,
        rgb_type::<10, 255, 2>,
        rgb_type::<10, 255, 3>,
        rgb_type::<10, 255, 4>,
        rgb_type::<10, 255, 5>,
        rgb_type::<10, 255, 6>,
        rgb_type::<10, 255, 7>,
        rgb_type::<10, 255, 8>,
        rgb_type::<10, 255, 9>,
        rgb_type::<10, 255, 10>,
        rgb_type::<10, 255, 11>,
        rgb_type::<10, 255, 12>,
        rgb_type::<10, 255, 13>,
        rgb_type::<10, 255, 14>,
        rgb_type::<10, 255, 15>,
        rgb_type::<10, 255, 16>,
        rgb_type::<10, 255, 17>,
        rgb_type::<10, 255, 18>,
        rgb_type::<10, 255, 19>,
        rgb_type::<10, 255, 20>,
        rgb_type::<10, 255, 21>,
        rgb_type::<10, 255, 22>,
        rgb_type::<10, 255, 23>,
        rgb_type::<10, 255, 24>,
        rgb_type::<10, 255, 25>,
        rgb_type::<10, 255, 26>,
        rgb_type::<10, 255, 27>,
        rgb_type::<10, 255, 28>,
        rgb_type::<10, 255, 29>,
        rgb_type::<10, 255, 30>,
        rgb_type::<10, 255, 31>,
        rgb_type::<10, 255, 32>,
        rgb_type::<10, 255, 33>,
        rgb_type::<10, 255, 34>,
        rgb_type::<10, 255, 35>,
        rgb_type::<10, 255, 36>,
        rgb_type::<10, 255, 37>,
        rgb_type::<10, 255, 38>,
        rgb_type::<10, 255, 39>,
        rgb_type::<10, 255, 40>,
        rgb_type::<10, 255, 41>,
        rgb_type::<10, 255, 42>,
        rgb_type::<10, 255, 43>,
        rgb_type::<10, 255, 44>,
        rgb_type::<10, 255, 45>,
        rgb_type::<10, 255, 46>,
        rgb_type::<10, 255, 47>,
        rgb_type::<10, 255, 48>,
        rgb_type::<10, 255, 49>,
        rgb_type::<10, 255, 50>,
        rgb_type::<10, 255, 51>,
        rgb_type::<10, 255, 52>,
        rgb_type::<10, 255, 53>,
        rgb_type::<10, 255, 54>,
        rgb_type::<10, 255, 55>,
        rgb_type::<10, 255, 56>,
        rgb_type::<10, 255, 57>,
        rgb_type::<10, 255, 58>,
        rgb_type::<10, 255, 59>,
        rgb_type::<10, 255, 60>,
        rgb_type::<10, 255, 61>,
        rgb_type::<10, 255, 62>,
        rgb_type::<10, 255, 63>,
        rgb_type::<10, 255, 64>,
        rgb_type::<10, 255, 65>,
        rgb_type::<10, 255, 66>,
        rgb_type::<10, 255, 67>,
        rgb_type::<10, 255, 68>,
        rgb_type::<10, 255, 69>,
        rgb_type::<10, 255, 70>,
        rgb_type::<10, 255, 71>,
        rgb_type::<10, 255, 72>,
        rgb_type::<10, 255, 73>,
        rgb_type::<10, 255, 74>,
        rgb_type::<10, 255, 75>,
        rgb_type::<10, 255, 76>,
        rgb_type::<10, 255, 77>,
        rgb_type::<10, 255, 78>,
        rgb_type::<10, 255, 79>,
        rgb_type::<10, 255, 80>,
        rgb_type::<10, 255, 81>,
        rgb_type::<10, 255, 82>,
        rgb_type::<10, 255, 83>,
        rgb_type::<10, 255, 84>,
        rgb_type::<10, 255, 85>,
        rgb_type::<10, 255, 86>,
        rgb_type::<10, 255, 87>,
        rgb_type::<10, 255, 88>,
        rgb_type::<10, 255, 89>,
        rgb_type::<10, 255, 90>,
        rgb_type::<10, 255, 91>,
        rgb_type::<10, 255, 92>,
        rgb_type::<10, 255, 93>,
        rgb_type::<10, 255, 94>,
        rgb_type::<10, 255, 95>,
        rgb_type::<10, 255, 96>,
        rgb_type::<10, 255, 97>,
        rgb_type::<10, 255, 98>,
        rgb_type::<10, 255, 99>,
        rgb_type::<10, 255, 100>,
        rgb_type::<10, 255, 101>,
        rgb_type::<10, 255, 102>,
        rgb_type::<10, 255, 103>,
        rgb_type::<10, 255, 104>,
        rgb_type::<10, 255, 105>,
        rgb_type::<10, 255, 106>,
        rgb_type::<10, 255, 107>,
        rgb_type::<10, 255, 108>,
        rgb_type::<10, 255, 109>,
        rgb_type::<10, 255, 110>,
        rgb_type::<10, 255, 111>,
        rgb_type::<10, 255, 112>,
        rgb_type::<10, 255, 113>,
        rgb_type::<10, 255, 114>,
        rgb_type::<10, 255, 115>,
        rgb_type::<10, 255, 116>,
        rgb_type::<10, 255, 117>,
        rgb_type::<10, 255, 118>,
        rgb_type::<10, 255, 119>,
        rgb_type::<10, 255, 120>,
        rgb_type::<10, 255, 121>,
        rgb_type::<10, 255, 122>,
        rgb_type::<10, 255, 123>,
        rgb_type::<10, 255, 124>,
        rgb_type::<10, 255, 125>,
        rgb_type::<10, 255, 126>,
        rgb_type::<10, 255, 127>,
        rgb_type::<10, 255, 128>,
        rgb_type::<10, 255, 129>,
        rgb_type::<10, 255, 130>,
        rgb_type::<10, 255, 131>,
        rgb_type::<10, 255, 132>,
        rgb_type::<10, 255, 133>,
        rgb_type::<10, 255, 134>,
        rgb_type::<10, 255, 135>,
        rgb_type::<10, 255, 136>,
        rgb_type::<10, 255, 137>,
        rgb_type::<10, 255, 138>,
        rgb_type::<10, 255, 139>,
        rgb_type::<10, 255, 140>,
        rgb_type::<10, 255, 141>,
        rgb_type::<10, 255, 142>,
        rgb_type::<10, 255, 143>,
        rgb_type::<10, 255, 144>,
        rgb_type::<10, 255, 145>,
        rgb_type::<10, 255, 146>,
        rgb_type::<10, 255, 147>,
        rgb_type::<10, 255, 148>,
        rgb_type::<10, 255, 149>,
        rgb_type::<10, 255, 150>,
        rgb_type::<10, 255, 151>,
        rgb_type::<10, 255, 152>,
        rgb_type::<10, 255, 153>,
        rgb_type::<10, 255, 154>,
        rgb_type::<10, 255, 155>,
        rgb_type::<10, 255, 156>,
        rgb_type::<10, 255, 157>,
        rgb_type::<10, 255, 158>,
        rgb_type::<10, 255, 159>,
        rgb_type::<10, 255, 160>,
        rgb_type::<10, 255, 161>,
        rgb_type::<10, 255, 162>,
        rgb_type::<10, 255, 163>,
        rgb_type::<10, 255, 164>,
        rgb_type::<10, 255, 165>,
        rgb_type::<10, 255, 166>,
        rgb_type::<10, 255, 167>,
        rgb_type::<10, 255, 168>,
        rgb_type::<10, 255, 169>,
        rgb_type::<10, 255, 170>,
        rgb_type::<10, 255, 171>,
        rgb_type::<10, 255, 172>,
        rgb_type::<10, 255, 173>,
        rgb_type::<10, 255, 174>,
        rgb_type::<10, 255, 175>,
        rgb_type::<10, 255, 176>,
        rgb_type::<10, 255, 177>,
        rgb_type::<10, 255, 178>,
        rgb_type::<10, 255, 179>,
        rgb_type::<10, 255, 180>,
        rgb_type::<10, 255, 181>,
        rgb_type::<10, 255, 182>,
        rgb_type::<10, 255, 183>,
        rgb_type::<10, 255, 184>,
        rgb_type::<10, 255, 185>,
        rgb_type::<10, 255, 186>,
        rgb_type::<10, 255, 187>,
        rgb_type::<10, 255, 188>,
        rgb_type::<10, 255, 189>,
        rgb_type::<10, 255, 190>,
        rgb_type::<10, 255, 191>,
        rgb_type::<10, 255, 192>,
        rgb_type::<10, 255, 193>,
        rgb_type::<10, 255, 194>,
        rgb_type::<10, 255, 195>,
        rgb_type::<10, 255, 196>,
        rgb_type::<10, 255, 197>,
        rgb_type::<10, 255, 198>,
        rgb_type::<10, 255, 199>,
        rgb_type::<10, 255, 200>,
        rgb_type::<10, 255, 201>,
        rgb_type::<10, 255, 202>,
        rgb_type::<10, 255, 203>,
        rgb_type::<10, 255, 204>,
        rgb_type::<10, 255, 205>,
        rgb_type::<10, 255, 206>,
        rgb_type::<10, 255, 207>,
        rgb_type::<10, 255, 208>,
        rgb_type::<10, 255, 209>,
        rgb_type::<10, 255, 210>,
        rgb_type::<10, 255, 211>,
        rgb_type::<10, 255, 212>,
        rgb_type::<10, 255, 213>,
        rgb_type::<10, 255, 214>,
        rgb_type::<10, 255, 215>,
        rgb_type::<10, 255, 216>,
        rgb_type::<10, 255, 217>,
        rgb_type::<10, 255, 218>,
        rgb_type::<10, 255, 219>,
        rgb_type::<10, 255, 220>,
        rgb_type::<10, 255, 221>,
        rgb_type::<10, 255, 222>,
        rgb_type::<10, 255, 223>,
        rgb_type::<10, 255, 224>,
        rgb_type::<10, 255, 225>,
        rgb_type::<10, 255, 226>,
        rgb_type::<10, 255, 227>,
        rgb_type::<10, 255, 228>,
        rgb_type::<10, 255, 229>,
        rgb_type::<10, 255, 230>,
        rgb_type::<10, 255, 231>,
        rgb_type::<10, 255, 232>,
        rgb_type::<10, 255, 233>,
        rgb_type::<10, 255, 234>,
        rgb_type::<10, 255, 235>,
        rgb_type::<10, 255, 236>,
        rgb_type::<10, 255, 237>,
        rgb_type::<10, 255, 238>,
        rgb_type::<10, 255, 239>,
        rgb_type::<10, 255, 240>,
        rgb_type::<10, 255, 241>,
        rgb_type::<10, 255, 242>,
        rgb_type::<10, 255, 243>,
        rgb_type::<10, 255, 244>,
        rgb_type::<10, 255, 245>,
        rgb_type::<10, 255, 246>,
        rgb_type::<10, 255, 247>,
        rgb_type::<10, 255, 248>,
        rgb_type::<10, 255, 249>,
        rgb_type::<10, 255, 250>,
        rgb_type::<10, 255, 251>,
        rgb_type::<10, 255, 252>,
        rgb_type::<10, 255, 253>,
        rgb_type::<10, 255, 254>,
        rgb_type::<10, 255, 255>,
        rgb_type::<11, 7, 45>,
        rgb_type::<11, 11, 11>,
        rgb_type::<12, 7, 45>,
        rgb_type::<12, 12, 12>,
        rgb_type::<13, 7, 45>,
        rgb_type::<13, 13, 13>,
        rgb_type::<14, 7, 45>,
        rgb_type::<14, 14, 14>,
        rgb_type::<15, 7, 45>,
        rgb_type::<15, 15, 15>,
        rgb_type::<16, 7, 45>,
        rgb_type::<16, 16, 16>,
        rgb_type::<17, 7, 45>,
        rgb_type::<17, 17, 17>,
        rgb_type::<18, 7, 45>,
        rgb_type::<18, 18, 18>,
        rgb_type::<19, 7, 45>,
        rgb_type::<19, 19, 19>,
        rgb_type::<20, 7, 45>,
        rgb_type::<20, 20, 20>,
        rgb_type::<21, 7, 45>,
        rgb_type::<21, 21, 21>,
        rgb_type::<22, 7, 45>,
        rgb_type::<22, 22, 22>,
        rgb_type::<23, 7, 45>,
        rgb_type::<23, 23, 23>,
        rgb_type::<24, 7, 45>,
        rgb_type::<24, 24, 24>,
        rgb_type::<25, 7, 45>,
        rgb_type::<25, 25, 25>,
        rgb_type::<25, 25, 112>,
        rgb_type::<26, 7, 45>,
        rgb_type::<26, 26, 26>,
        rgb_type::<27, 7, 45>,
        rgb_type::<27, 27, 27>,
        rgb_type::<28, 7, 45>,
        rgb_type::<28, 28, 28>,
        rgb_type::<29, 7, 45>,
        rgb_type::<29, 29, 29>,
        rgb_type::<30, 7, 45>,
        rgb_type::<30, 30, 30>,
        rgb_type::<30, 144, 255>,
        rgb_type::<31, 7, 45>,
        rgb_type::<31, 31, 31>,
        rgb_type::<32, 7, 45>,
        rgb_type::<32, 32, 32>,
        rgb_type::<32, 178, 170>,
        rgb_type::<33, 7, 45>,
        rgb_type::<33, 33, 33>,
        rgb_type::<34, 7, 45>,
        rgb_type::<34, 34, 34>,
        rgb_type::<34, 139, 34>,
        rgb_type::<35, 7, 45>,
        rgb_type::<35, 35, 35>,
        rgb_type::<36, 7, 45>,
        rgb_type::<36, 36, 36>,
        rgb_type::<37, 7, 45>,
        rgb_type::<37, 37, 37>,
        rgb_type::<38, 7, 45>,
        rgb_type::<38, 38, 38>,
        rgb_type::<39, 7, 45>,
        rgb_type::<39, 39, 39>,
        rgb_type::<40, 7, 45>,
        rgb_type::<40, 40, 40>,
        rgb_type::<41, 7, 45>,
        rgb_type::<41, 41, 41>,
        rgb_type::<42, 7, 45>,
        rgb_type::<42, 42, 42>,
        rgb_type::<43, 7, 45>,
        rgb_type::<43, 43, 43>,
        rgb_type::<44, 7, 45>,
        rgb_type::<44, 44, 44>,
        rgb_type::<45, 7, 45>,
        rgb_type::<45, 45, 45>,
        rgb_type::<46, 7, 45>,
        rgb_type::<46, 46, 46>,
        rgb_type::<46, 139, 87>,
        rgb_type::<47, 7, 45>,
        rgb_type::<47, 47, 47>,
        rgb_type::<47, 79, 79>,
        rgb_type::<48, 7, 45>,
        rgb_type::<48, 48, 48>,
        rgb_type::<49, 7, 45>,
        rgb_type::<49, 49, 49>,
        rgb_type::<50, 7, 45>,
        rgb_type::<50, 50, 50>,
        rgb_type::<50, 205, 50>,
        rgb_type::<51, 7, 45>,
        rgb_type::<51, 51, 51>,
        rgb_type::<52, 7, 45>,
        rgb_type::<52, 52, 52>,
        rgb_type::<53, 7, 45>,
        rgb_type::<53, 53, 53>,
        rgb_type::<54, 7, 45>,
        rgb_type::<54, 54, 54>,
        rgb_type::<55, 7, 45>,
        rgb_type::<55, 55, 55>,
        rgb_type::<56, 7, 45>,
        rgb_type::<56, 56, 56>,
        rgb_type::<57, 7, 45>,
        rgb_type::<57, 57, 57>,
        rgb_type::<58, 7, 45>,
        rgb_type::<58, 58, 58>,
        rgb_type::<59, 7, 45>,
        rgb_type::<59, 59, 59>,
        rgb_type::<60, 7, 45>,
        rgb_type::<60, 60, 60>,
        rgb_type::<60, 179, 113>,
        rgb_type::<61, 7, 45>,
        rgb_type::<61, 61, 61>,
        rgb_type::<62, 7, 45>,
        rgb_type::<62, 62, 62>,
        rgb_type::<63, 7, 45>,
        rgb_type::<63, 63, 63>,
        rgb_type::<64, 7, 45>,
        rgb_type::<64, 64, 64>,
        rgb_type::<64, 224, 208>,
        rgb_type::<65, 7, 45>,
        rgb_type::<65, 65, 65>,
        rgb_type::<65, 105, 225>,
        rgb_type::<66, 7, 45>,
        rgb_type::<66, 66, 66>,
        rgb_type::<67, 7, 45>,
        rgb_type::<67, 67, 67>,
        rgb_type::<68, 7, 45>,
        rgb_type::<68, 68, 68>,
        rgb_type::<69, 7, 45>,
        rgb_type::<69, 69, 69>,
        rgb_type::<70, 7, 45>,
        rgb_type::<70, 70, 70>,
        rgb_type::<70, 130, 180>,
        rgb_type::<71, 7, 45>,
        rgb_type::<71, 71, 71>,
        rgb_type::<72, 7, 45>,
        rgb_type::<72, 61, 139>,
        rgb_type::<72, 72, 72>,
        rgb_type::<72, 209, 204>,
        rgb_type::<73, 7, 45>,
        rgb_type::<73, 73, 73>,
        rgb_type::<74, 7, 45>,
        rgb_type::<74, 74, 74>,
        rgb_type::<75, 0, 130>,
        rgb_type::<75, 7, 45>,
        rgb_type::<75, 75, 75>,
        rgb_type::<76, 7, 45>,
        rgb_type::<76, 76, 76>,
        rgb_type::<77, 7, 45>,
        rgb_type::<77, 77, 77>,
        rgb_type::<78, 7, 45>,
        rgb_type::<78, 78, 78>,
        rgb_type::<79, 7, 45>,
        rgb_type::<79, 79, 79>,
        rgb_type::<80, 7, 45>,
        rgb_type::<80, 80, 80>,
        rgb_type::<81, 7, 45>,
        rgb_type::<81, 81, 81>,
        rgb_type::<82, 7, 45>,
        rgb_type::<82, 82, 82>,
        rgb_type::<83, 7, 45>,
        rgb_type::<83, 83, 83>,
        rgb_type::<84, 7, 45>,
        rgb_type::<84, 84, 84>,
        rgb_type::<85, 7, 45>,
        rgb_type::<85, 85, 85>,
        rgb_type::<85, 107, 47>,
        rgb_type::<86, 7, 45>,
        rgb_type::<86, 86, 86>,
        rgb_type::<87, 7, 45>,
        rgb_type::<87, 87, 87>,
        rgb_type::<88, 7, 45>,
        rgb_type::<88, 88, 88>,
        rgb_type::<89, 7, 45>,
        rgb_type::<89, 89, 89>,
        rgb_type::<90, 7, 45>,
        rgb_type::<90, 90, 90>,
        rgb_type::<91, 7, 45>,
        rgb_type::<91, 91, 91>,
        rgb_type::<92, 7, 45>,
        rgb_type::<92, 92, 92>,
        rgb_type::<93, 7, 45>,
        rgb_type::<93, 93, 93>,
        rgb_type::<94, 7, 45>,
        rgb_type::<94, 94, 94>,
        rgb_type::<95, 0, 0>,
        rgb_type::<95, 0, 95>,
        rgb_type::<95, 0, 135>,
        rgb_type::<95, 0, 175>,
        rgb_type::<95, 0, 215>,
        rgb_type::<95, 0, 255>,
        rgb_type::<95, 7, 45>,
        rgb_type::<95, 95, 0>,
        rgb_type::<95, 95, 95>,
        rgb_type::<95, 95, 135>,
        rgb_type::<95, 95, 175>,
        rgb_type::<95, 95, 215>,
        rgb_type::<95, 95, 255>,
        rgb_type::<95, 135, 0>,
        rgb_type::<95, 135, 95>,
        rgb_type::<95, 135, 135>,
        rgb_type::<95, 135, 175>,
        rgb_type::<95, 135, 215>,
        rgb_type::<95, 135, 255>,
        rgb_type::<95, 158, 160>,
        rgb_type::<95, 175, 0>,
        rgb_type::<95, 175, 95>,
        rgb_type::<95, 175, 135>,
        rgb_type::<95, 175, 175>,
        rgb_type::<95, 175, 215>,
        rgb_type::<95, 175, 255>,
        rgb_type::<95, 215, 0>,
        rgb_type::<95, 215, 95>,
        rgb_type::<95, 215, 135>,
        rgb_type::<95, 215, 175>,
        rgb_type::<95, 215, 215>,
        rgb_type::<95, 215, 255>,
        rgb_type::<95, 255, 0>,
        rgb_type::<95, 255, 95>,
        rgb_type::<95, 255, 135>,
        rgb_type::<95, 255, 175>,
        rgb_type::<95, 255, 215>,
        rgb_type::<95, 255, 255>,
        rgb_type::<96, 7, 45>,
        rgb_type::<96, 96, 96>,
        rgb_type::<97, 7, 45>,
        rgb_type::<97, 97, 97>,
        rgb_type::<98, 7, 45>,
        rgb_type::<98, 98, 98>,
        rgb_type::<99, 0, 0>,
        rgb_type::<99, 0, 9>,
        rgb_type::<99, 0, 10>,
        rgb_type::<99, 0, 99>,
        rgb_type::<99, 0, 100>,
        rgb_type::<99, 0, 199>,
        rgb_type::<99, 0, 200>,
        rgb_type::<99, 0, 255>,
        rgb_type::<99, 7, 45>,
        rgb_type::<99, 9, 0>,
        rgb_type::<99, 9, 9>,
        rgb_type::<99, 9, 10>,
        rgb_type::<99, 9, 99>,
        rgb_type::<99, 9, 100>,
        rgb_type::<99, 9, 199>,
        rgb_type::<99, 9, 200>,
        rgb_type::<99, 9, 255>,
        rgb_type::<99, 10, 0>,
        rgb_type::<99, 10, 9>,
        rgb_type::<99, 10, 10>,
        rgb_type::<99, 10, 99>,
        rgb_type::<99, 10, 100>,
        rgb_type::<99, 10, 199>,
        rgb_type::<99, 10, 200>,
        rgb_type::<99, 10, 255>,
        rgb_type::<99, 99, 0>,
        rgb_type::<99, 99, 9>,
        rgb_type::<99, 99, 10>,
        rgb_type::<99, 99, 99>,
        rgb_type::<99, 99, 100>,
        rgb_type::<99, 99, 199>,
        rgb_type::<99, 99, 200>,
        rgb_type::<99, 99, 255>,
        rgb_type::<99, 100, 0>,
        rgb_type::<99, 100, 9>,
        rgb_type::<99, 100, 10>,
        rgb_type::<99, 100, 99>,
        rgb_type::<99, 100, 100>,
        rgb_type::<99, 100, 199>,
        rgb_type::<99, 100, 200>,
        rgb_type::<99, 100, 255>,
        rgb_type::<99, 199, 0>,
        rgb_type::<99, 199, 9>,
        rgb_type::<99, 199, 10>,
        rgb_type::<99, 199, 99>,
        rgb_type::<99, 199, 100>,
        rgb_type::<99, 199, 199>,
        rgb_type::<99, 199, 200>,
        rgb_type::<99, 199, 255>,
        rgb_type::<99, 200, 0>,
        rgb_type::<99, 200, 9>,
        rgb_type::<99, 200, 10>,
        rgb_type::<99, 200, 99>,
        rgb_type::<99, 200, 100>,
        rgb_type::<99, 200, 199>,
        rgb_type::<99, 200, 200>,
        rgb_type::<99, 200, 255>,
        rgb_type::<99, 255, 0>,
        rgb_type::<99, 255, 9>,
        rgb_type::<99, 255, 10>,
        rgb_type::<99, 255, 99>,
        rgb_type::<99, 255, 100>,
        rgb_type::<99, 255, 199>,
        rgb_type::<99, 255, 200>,
        rgb_type::<99, 255, 255>,
        rgb_type::<100, 0, 0>,
        rgb_type::<100, 0, 9>,
        rgb_type::<100, 0, 10>,
        rgb_type::<100, 0, 99>,
        rgb_type::<100, 0, 100>,
        rgb_type::<100, 0, 199>,
        rgb_type::<100, 0, 200>,
        rgb_type::<100, 0, 255>,
        rgb_type::<100, 1, 9>,
        rgb_type::<100, 2, 9>,
        rgb_type::<100, 3, 9>,
        rgb_type::<100, 4, 9>,
        rgb_type::<100, 5, 9>,
        rgb_type::<100, 6, 9>,
        rgb_type::<100, 7, 9>,
        rgb_type::<100, 7, 45>,
        rgb_type::<100, 8, 9>,
        rgb_type::<100, 9, 0>,
        rgb_type::<100, 9, 9>,
        rgb_type::<100, 9, 10>,
        rgb_type::<100, 9, 99>,
        rgb_type::<100, 9, 100>,
        rgb_type::<100, 9, 199>,
        rgb_type::<100, 9, 200>,
        rgb_type::<100, 9, 255>,
        rgb_type::<100, 10, 0>,
        rgb_type::<100, 10, 9>,
        rgb_type::<100, 10, 10>,
        rgb_type::<100, 10, 99>,
        rgb_type::<100, 10, 100>,
        rgb_type::<100, 10, 199>,
        rgb_type::<100, 10, 200>,
        rgb_type::<100, 10, 255>,
        rgb_type::<100, 11, 9>,
        rgb_type::<100, 12, 9>,
        rgb_type::<100, 13, 9>,
        rgb_type::<100, 14, 9>,
        rgb_type::<100, 15, 9>,
        rgb_type::<100, 16, 9>,
        rgb_type::<100, 17, 9>,
        rgb_type::<100, 18, 9>,
        rgb_type::<100, 19, 9>,
        rgb_type::<100, 20, 9>,
        rgb_type::<100, 21, 9>,
        rgb_type::<100, 22, 9>,
        rgb_type::<100, 23, 9>,
        rgb_type::<100, 24, 9>,
        rgb_type::<100, 25, 9>,
        rgb_type::<100, 26, 9>,
        rgb_type::<100, 27, 9>,
        rgb_type::<100, 28, 9>,
        rgb_type::<100, 29, 9>,
        rgb_type::<100, 30, 9>,
        rgb_type::<100, 31, 9>,
        rgb_type::<100, 32, 9>,
        rgb_type::<100, 33, 9>,
        rgb_type::<100, 34, 9>,
        rgb_type::<100, 35, 9>,
        rgb_type::<100, 36, 9>,
        rgb_type::<100, 37, 9>,
        rgb_type::<100, 38, 9>,
        rgb_type::<100, 39, 9>,
        rgb_type::<100, 40, 9>,
        rgb_type::<100, 41, 9>,
        rgb_type::<100, 42, 9>,
        rgb_type::<100, 43, 9>,
        rgb_type::<100, 44, 9>,
        rgb_type::<100, 45, 9>,
        rgb_type::<100, 46, 9>,
        rgb_type::<100, 47, 9>,
        rgb_type::<100, 48, 9>,
        rgb_type::<100, 49, 9>,
        rgb_type::<100, 50, 9>,
        rgb_type::<100, 51, 9>,
        rgb_type::<100, 52, 9>,
        rgb_type::<100, 53, 9>,
        rgb_type::<100, 54, 9>,
        rgb_type::<100, 55, 9>,
        rgb_type::<100, 56, 9>,
        rgb_type::<100, 57, 9>,
        rgb_type::<100, 58, 9>,
        rgb_type::<100, 59, 9>,
        rgb_type::<100, 60, 9>,
        rgb_type::<100, 61, 9>,
        rgb_type::<100, 62, 9>,
        rgb_type::<100, 63, 9>,
        rgb_type::<100, 64, 9>,
        rgb_type::<100, 65, 9>,
        rgb_type::<100, 66, 9>,
        rgb_type::<100, 67, 9>,
        rgb_type::<100, 68, 9>,
        rgb_type::<100, 69, 9>,
        rgb_type::<100, 70, 9>,
        rgb_type::<100, 71, 9>,
        rgb_type::<100, 72, 9>,
        rgb_type::<100, 73, 9>,
        rgb_type::<100, 74, 9>,
        rgb_type::<100, 75, 9>,
        rgb_type::<100, 76, 9>,
        rgb_type::<100, 77, 9>,
        rgb_type::<100, 78, 9>,
        rgb_type::<100, 79, 9>,
        rgb_type::<100, 80, 9>,
        rgb_type::<100, 81, 9>,
        rgb_type::<100, 82, 9>,
        rgb_type::<100, 83, 9>,
        rgb_type::<100, 84, 9>,
        rgb_type::<100, 85, 9>,
        rgb_type::<100, 86, 9>,
        rgb_type::<100, 87, 9>,
        rgb_type::<100, 88, 9>,
        rgb_type::<100, 89, 9>,
        rgb_type::<100, 90, 9>,
        rgb_type::<100, 91, 9>,
        rgb_type::<100, 92, 9>,
        rgb_type::<100, 93, 9>,
        rgb_type::<100, 94, 9>,
        rgb_type::<100, 95, 9>,
        rgb_type::<100, 96, 9>,
        rgb_type::<100, 97, 9>,
        rgb_type::<100, 98, 9>,
        rgb_type::<100, 99, 0>,
        rgb_type::<100, 99, 9>,
        rgb_type::<100, 99, 10>,
        rgb_type::<100, 99, 99>,
        rgb_type::<100, 99, 100>,
        rgb_type::<100, 99, 199>,
        rgb_type::<100, 99, 200>,
        rgb_type::<100, 99, 255>,
        rgb_type::<100, 100, 0>,
        rgb_type::<100, 100, 9>,
        rgb_type::<100, 100, 10>,
        rgb_type::<100, 100, 99>,
        rgb_type::<100, 100, 100>,
        rgb_type::<100, 100, 199>,
        rgb_type::<100, 100, 200>,
        rgb_type::<100, 100, 255>,
        rgb_type::<100, 101, 9>,
        rgb_type::<100, 102, 9>,
        rgb_type::<100, 103, 9>,
        rgb_type::<100, 104, 9>,
        rgb_type::<100, 105, 9>,
        rgb_type::<100, 106, 9>,
        rgb_type::<100, 107, 9>,
        rgb_type::<100, 108, 9>,
        rgb_type::<100, 109, 9>,
        rgb_type::<100, 110, 9>,
        rgb_type::<100, 111, 9>,
        rgb_type::<100, 112, 9>,
        rgb_type::<100, 113, 9>,
        rgb_type::<100, 114, 9>,
        rgb_type::<100, 115, 9>,
        rgb_type::<100, 116, 9>,
        rgb_type::<100, 117, 9>,
        rgb_type::<100, 118, 9>,
        rgb_type::<100, 119, 9>,
        rgb_type::<100, 120, 9>,
        rgb_type::<100, 121, 9>,
        rgb_type::<100, 122, 9>,
        rgb_type::<100, 123, 9>,
        rgb_type::<100, 124, 9>,
        rgb_type::<100, 125, 9>,
        rgb_type::<100, 126, 9>,
        rgb_type::<100, 127, 9>,
        rgb_type::<100, 128, 9>,
        rgb_type::<100, 129, 9>,
        rgb_type::<100, 130, 9>,
        rgb_type::<100, 131, 9>,
        rgb_type::<100, 132, 9>,
        rgb_type::<100, 133, 9>,
        rgb_type::<100, 134, 9>,
        rgb_type::<100, 135, 9>,
        rgb_type::<100, 136, 9>,
        rgb_type::<100, 137, 9>,
        rgb_type::<100, 138, 9>,
        rgb_type::<100, 139, 9>,
        rgb_type::<100, 140, 9>,
        rgb_type::<100, 141, 9>,
        rgb_type::<100, 142, 9>,
        rgb_type::<100, 143, 9>,
        rgb_type::<100, 144, 9>,
        rgb_type::<100, 145, 9>,
        rgb_type::<100, 146, 9>,
        rgb_type::<100, 147, 9>,
        rgb_type::<100, 148, 9>,
        rgb_type::<100, 149, 9>,
        rgb_type::<100, 149, 237>,
        rgb_type::<100, 150, 9>,
        rgb_type::<100, 151, 9>,
        rgb_type::<100, 152, 9>,
        rgb_type::<100, 153, 9>,
        rgb_type::<100, 154, 9>,
        rgb_type::<100, 155, 9>,
        rgb_type::<100, 156, 9>,
        rgb_type::<100, 157, 9>,
        rgb_type::<100, 158, 9>,
        rgb_type::<100, 159, 9>,
        rgb_type::<100, 160, 9>,
        rgb_type::<100, 161, 9>,
        rgb_type::<100, 162, 9>,
        rgb_type::<100, 163, 9>,
        rgb_type::<100, 164, 9>,
        rgb_type::<100, 165, 9>,
        rgb_type::<100, 166, 9>,
        rgb_type::<100, 167, 9>,
        rgb_type::<100, 168, 9>,
        rgb_type::<100, 169, 9>,
        rgb_type::<100, 170, 9>,
        rgb_type::<100, 171, 9>,
        rgb_type::<100, 172, 9>,
        rgb_type::<100, 173, 9>,
        rgb_type::<100, 174, 9>,
        rgb_type::<100, 175, 9>,
        rgb_type::<100, 176, 9>,
        rgb_type::<100, 177, 9>,
        rgb_type::<100, 178, 9>,
        rgb_type::<100, 179, 9>,
        rgb_type::<100, 180, 9>,
        rgb_type::<100, 181, 9>,
        rgb_type::<100, 182, 9>,
        rgb_type::<100, 183, 9>,
        rgb_type::<100, 184, 9>,
        rgb_type::<100, 185, 9>,
        rgb_type::<100, 186, 9>,
        rgb_type::<100, 187, 9>,
        rgb_type::<100, 188, 9>,
        rgb_type::<100, 189, 9>,
        rgb_type::<100, 190, 9>,
        rgb_type::<100, 191, 9>,
        rgb_type::<100, 192, 9>,
        rgb_type::<100, 193, 9>,
        rgb_type::<100, 194, 9>,
        rgb_type::<100, 195, 9>,
        rgb_type::<100, 196, 9>,
        rgb_type::<100, 197, 9>,
        rgb_type::<100, 198, 9>,
        rgb_type::<100, 199, 0>,
        rgb_type::<100, 199, 9>,
        rgb_type::<100, 199, 10>,
        rgb_type::<100, 199, 99>,
        rgb_type::<100, 199, 100>,
        rgb_type::<100, 199, 199>,
        rgb_type::<100, 199, 200>,
        rgb_type::<100, 199, 255>,
        rgb_type::<100, 200, 0>,
        rgb_type::<100, 200, 9>,
        rgb_type::<100, 200, 10>,
        rgb_type::<100, 200, 99>,
        rgb_type::<100, 200, 100>,
        rgb_type::<100, 200, 199>,
        rgb_type::<100, 200, 200>,
        rgb_type::<100, 200, 255>,
        rgb_type::<100, 201, 9>,
        rgb_type::<100, 202, 9>,
        rgb_type::<100, 203, 9>,
        rgb_type::<100, 204, 9>,
        rgb_type::<100, 205, 9>,
        rgb_type::<100, 206, 9>,
        rgb_type::<100, 207, 9>,
        rgb_type::<100, 208, 9>,
        rgb_type::<100, 209, 9>,
        rgb_type::<100, 210, 9>,
        rgb_type::<100, 211, 9>,
        rgb_type::<100, 212, 9>,
        rgb_type::<100, 213, 9>,
        rgb_type::<100, 214, 9>,
        rgb_type::<100, 215, 9>,
        rgb_type::<100, 216, 9>,
        rgb_type::<100, 217, 9>,
        rgb_type::<100, 218, 9>,
        rgb_type::<100, 219, 9>,
        rgb_type::<100, 220, 9>,
        rgb_type::<100, 221, 9>,
        rgb_type::<100, 222, 9>,
        rgb_type::<100, 223, 9>,
        rgb_type::<100, 224, 9>,
        rgb_type::<100, 225, 9>,
        rgb_type::<100, 226, 9>,
        rgb_type::<100, 227, 9>,
        rgb_type::<100, 228, 9>,
        rgb_type::<100, 229, 9>,
        rgb_type::<100, 230, 9>,
        rgb_type::<100, 231, 9>,
        rgb_type::<100, 232, 9>,
        rgb_type::<100, 233, 9>,
        rgb_type::<100, 234, 9>,
        rgb_type::<100, 235, 9>,
        rgb_type::<100, 236, 9>,
        rgb_type::<100, 237, 9>,
        rgb_type::<100, 238, 9>,
        rgb_type::<100, 239, 9>,
        rgb_type::<100, 240, 9>,
        rgb_type::<100, 241, 9>,
        rgb_type::<100, 242, 9>,
        rgb_type::<100, 243, 9>,
        rgb_type::<100, 244, 9>,
        rgb_type::<100, 245, 9>,
        rgb_type::<100, 246, 9>,
        rgb_type::<100, 247, 9>,
        rgb_type::<100, 248, 9>,
        rgb_type::<100, 249, 9>,
        rgb_type::<100, 250, 9>,
        rgb_type::<100, 251, 9>,
        rgb_type::<100, 252, 9>,
        rgb_type::<100, 253, 9>,
        rgb_type::<100, 254, 9>,
        rgb_type::<100, 255, 0>,
        rgb_type::<100, 255, 9>,
        rgb_type::<100, 255, 10>,
        rgb_type::<100, 255, 99>,
        rgb_type::<100, 255, 100>,
        rgb_type::<100, 255, 199>,
        rgb_type::<100, 255, 200>,
        rgb_type::<100, 255, 255>,
        rgb_type::<101, 7, 45>,
        rgb_type::<101, 101, 101>,
        rgb_type::<102, 7, 45>,
        rgb_type::<102, 51, 153>,
        rgb_type::<102, 102, 102>,
        rgb_type::<102, 205, 170>,
        rgb_type::<103, 7, 45>,
        rgb_type::<103, 103, 103>,
        rgb_type::<104, 7, 45>,
        rgb_type::<104, 104, 104>,
        rgb_type::<105, 7, 45>,
        rgb_type::<105, 105, 105>,
        rgb_type::<106, 7, 45>,
        rgb_type::<106, 90, 205>,
        rgb_type::<106, 106, 106>,
        rgb_type::<107, 7, 45>,
        rgb_type::<107, 107, 107>,
        rgb_type::<107, 142, 35>,
        rgb_type::<108, 7, 45>,
        rgb_type::<108, 108, 108>,
        rgb_type::<109, 7, 45>,
        rgb_type::<109, 109, 109>,
        rgb_type::<110, 7, 45>,
        rgb_type::<110, 110, 110>,
        rgb_type::<111, 7, 45>,
        rgb_type::<111, 111, 111>,
        rgb_type::<112, 7, 45>,
        rgb_type::<112, 112, 112>,
        rgb_type::<112, 128, 144>,
        rgb_type::<113, 7, 45>,
        rgb_type::<113, 113, 113>,
        rgb_type::<114, 7, 45>,
        rgb_type::<114, 114, 114>,
        rgb_type::<115, 7, 45>,
        rgb_type::<115, 115, 115>,
        rgb_type::<116, 7, 45>,
        rgb_type::<116, 116, 116>,
        rgb_type::<117, 7, 45>,
        rgb_type::<117, 117, 117>,
        rgb_type::<118, 7, 45>,
        rgb_type::<118, 118, 118>,
        rgb_type::<119, 7, 45>,
        rgb_type::<119, 119, 119>,
        rgb_type::<119, 136, 153>,
        rgb_type::<120, 7, 45>,
        rgb_type::<120, 120, 120>,
        rgb_type::<121, 7, 45>,
        rgb_type::<121, 121, 121>,
        rgb_type::<122, 7, 45>,
        rgb_type::<122, 122, 122>,
        rgb_type::<123, 7, 45>,
        rgb_type::<123, 104, 238>,
        rgb_type::<123, 123, 123>,
        rgb_type::<124, 7, 45>,
        rgb_type::<124, 124, 124>,
        rgb_type::<124, 252, 0>,
        rgb_type::<125, 7, 45>,
        rgb_type::<125, 125, 125>,
        rgb_type::<126, 7, 45>,
        rgb_type::<126, 126, 126>,
        rgb_type::<127, 7, 45>,
        rgb_type::<127, 127, 127>,
        rgb_type::<127, 255, 0>,
        rgb_type::<127, 255, 212>,
        rgb_type::<128, 0, 0>,
        rgb_type::<128, 0, 128>,
        rgb_type::<128, 0, 192>,
        rgb_type::<128, 7, 45>,
        rgb_type::<128, 128, 0>,
        rgb_type::<128, 128, 128>,
        rgb_type::<128, 128, 192>,
        rgb_type::<128, 192, 0>,
        rgb_type::<128, 192, 128>,
        rgb_type::<128, 192, 192>,
        rgb_type::<129, 7, 45>,
        rgb_type::<129, 129, 129>,
        rgb_type::<130, 7, 45>,
        rgb_type::<130, 130, 130>,
        rgb_type::<131, 7, 45>,
        rgb_type::<131, 131, 131>,
        rgb_type::<132, 7, 45>,
        rgb_type::<132, 132, 132>,
        rgb_type::<133, 7, 45>,
        rgb_type::<133, 133, 133>,
        rgb_type::<134, 7, 45>,
        rgb_type::<134, 134, 134>,
        rgb_type::<135, 0, 0>,
        rgb_type::<135, 0, 95>,
        rgb_type::<135, 0, 135>,
        rgb_type::<135, 0, 175>,
        rgb_type::<135, 0, 215>,
        rgb_type::<135, 0, 255>,
        rgb_type::<135, 7, 45>,
        rgb_type::<135, 95, 0>,
        rgb_type::<135, 95, 95>,
        rgb_type::<135, 95, 135>,
        rgb_type::<135, 95, 175>,
        rgb_type::<135, 95, 215>,
        rgb_type::<135, 95, 255>,
        rgb_type::<135, 135, 0>,
        rgb_type::<135, 135, 95>,
        rgb_type::<135, 135, 135>,
        rgb_type::<135, 135, 175>,
        rgb_type::<135, 135, 215>,
        rgb_type::<135, 135, 255>,
        rgb_type::<135, 175, 0>,
        rgb_type::<135, 175, 95>,
        rgb_type::<135, 175, 135>,
        rgb_type::<135, 175, 175>,
        rgb_type::<135, 175, 215>,
        rgb_type::<135, 175, 255>,
        rgb_type::<135, 206, 235>,
        rgb_type::<135, 206, 250>,
        rgb_type::<135, 215, 0>,
        rgb_type::<135, 215, 95>,
        rgb_type::<135, 215, 135>,
        rgb_type::<135, 215, 175>,
        rgb_type::<135, 215, 215>,
        rgb_type::<135, 215, 255>,
        rgb_type::<135, 255, 0>,
        rgb_type::<135, 255, 95>,
        rgb_type::<135, 255, 135>,
        rgb_type::<135, 255, 175>,
        rgb_type::<135, 255, 215>,
        rgb_type::<135, 255, 255>,
        rgb_type::<136, 7, 45>,
        rgb_type::<136, 136, 136>,
        rgb_type::<137, 7, 45>,
        rgb_type::<137, 137, 137>,
        rgb_type::<138, 7, 45>,
        rgb_type::<138, 43, 226>,
        rgb_type::<138, 138, 138>,
        rgb_type::<139, 0, 0>,
        rgb_type::<139, 0, 139>,
        rgb_type::<139, 7, 45>,
        rgb_type::<139, 69, 19>,
        rgb_type::<139, 139, 139>,
        rgb_type::<140, 7, 45>,
        rgb_type::<140, 140, 140>,
        rgb_type::<141, 7, 45>,
        rgb_type::<141, 141, 141>,
        rgb_type::<142, 7, 45>,
        rgb_type::<142, 142, 142>,
        rgb_type::<143, 7, 45>,
        rgb_type::<143, 143, 143>,
        rgb_type::<143, 188, 143>,
        rgb_type::<144, 7, 45>,
        rgb_type::<144, 144, 144>,
        rgb_type::<144, 238, 144>,
        rgb_type::<145, 7, 45>,
        rgb_type::<145, 145, 145>,
        rgb_type::<146, 7, 45>,
        rgb_type::<146, 146, 146>,
        rgb_type::<147, 7, 45>,
        rgb_type::<147, 112, 219>,
        rgb_type::<147, 147, 147>,
        rgb_type::<148, 0, 211>,
        rgb_type::<148, 7, 45>,
        rgb_type::<148, 148, 148>,
        rgb_type::<149, 7, 45>,
        rgb_type::<149, 149, 149>,
        rgb_type::<150, 7, 45>,
        rgb_type::<150, 150, 150>,
        rgb_type::<151, 7, 45>,
        rgb_type::<151, 151, 151>,
        rgb_type::<152, 7, 45>,
        rgb_type::<152, 152, 152>,
        rgb_type::<152, 251, 152>,
        rgb_type::<153, 7, 45>,
        rgb_type::<153, 50, 204>,
        rgb_type::<153, 153, 153>,
        rgb_type::<154, 7, 45>,
        rgb_type::<154, 154, 154>,
        rgb_type::<154, 205, 50>,
        rgb_type::<155, 7, 45>,
        rgb_type::<155, 155, 155>,
        rgb_type::<156, 7, 45>,
        rgb_type::<156, 156, 156>,
        rgb_type::<157, 7, 45>,
        rgb_type::<157, 157, 157>,
        rgb_type::<158, 7, 45>,
        rgb_type::<158, 158, 158>,
        rgb_type::<159, 7, 45>,
        rgb_type::<159, 159, 159>,
        rgb_type::<160, 7, 45>,
        rgb_type::<160, 82, 45>,
        rgb_type::<160, 160, 160>,
        rgb_type::<161, 7, 45>,
        rgb_type::<161, 161, 161>,
        rgb_type::<162, 7, 45>,
        rgb_type::<162, 162, 162>,
        rgb_type::<163, 7, 45>,
        rgb_type::<163, 163, 163>,
        rgb_type::<164, 7, 45>,
        rgb_type::<164, 164, 164>,
        rgb_type::<165, 7, 45>,
        rgb_type::<165, 42, 42>,
        rgb_type::<165, 165, 165>,
        rgb_type::<166, 7, 45>,
        rgb_type::<166, 166, 166>,
        rgb_type::<167, 7, 45>,
        rgb_type::<167, 167, 167>,
        rgb_type::<168, 7, 45>,
        rgb_type::<168, 168, 168>,
        rgb_type::<169, 7, 45>,
        rgb_type::<169, 169, 169>,
        rgb_type::<170, 7, 45>,
        rgb_type::<170, 170, 170>,
        rgb_type::<171, 7, 45>,
        rgb_type::<171, 171, 171>,
        rgb_type::<172, 7, 45>,
        rgb_type::<172, 172, 172>,
        rgb_type::<173, 7, 45>,
        rgb_type::<173, 173, 173>,
        rgb_type::<173, 216, 230>,
        rgb_type::<173, 255, 47>,
        rgb_type::<174, 7, 45>,
        rgb_type::<174, 174, 174>,
        rgb_type::<175, 0, 0>,
        rgb_type::<175, 0, 95>,
        rgb_type::<175, 0, 135>,
        rgb_type::<175, 0, 175>,
        rgb_type::<175, 0, 215>,
        rgb_type::<175, 0, 255>,
        rgb_type::<175, 7, 45>,
        rgb_type::<175, 95, 0>,
        rgb_type::<175, 95, 95>,
        rgb_type::<175, 95, 135>,
        rgb_type::<175, 95, 175>,
        rgb_type::<175, 95, 215>,
        rgb_type::<175, 95, 255>,
        rgb_type::<175, 135, 0>,
        rgb_type::<175, 135, 95>,
        rgb_type::<175, 135, 135>,
        rgb_type::<175, 135, 175>,
        rgb_type::<175, 135, 215>,
        rgb_type::<175, 135, 255>,
        rgb_type::<175, 175, 0>,
        rgb_type::<175, 175, 95>,
        rgb_type::<175, 175, 135>,
        rgb_type::<175, 175, 175>,
        rgb_type::<175, 175, 215>,
        rgb_type::<175, 175, 255>,
        rgb_type::<175, 215, 0>,
        rgb_type::<175, 215, 95>,
        rgb_type::<175, 215, 135>,
        rgb_type::<175, 215, 175>,
        rgb_type::<175, 215, 215>,
        rgb_type::<175, 215, 255>,
        rgb_type::<175, 238, 238>,
        rgb_type::<175, 255, 0>,
        rgb_type::<175, 255, 95>,
        rgb_type::<175, 255, 135>,
        rgb_type::<175, 255, 175>,
        rgb_type::<175, 255, 215>,
        rgb_type::<175, 255, 255>,
        rgb_type::<176, 7, 45>,
        rgb_type::<176, 176, 176>,
        rgb_type::<176, 196, 222>,
        rgb_type::<176, 224, 230>,
        rgb_type::<177, 7, 45>,
        rgb_type::<177, 177, 177>,
        rgb_type::<178, 7, 45>,
        rgb_type::<178, 34, 34>,
        rgb_type::<178, 178, 178>,
        rgb_type::<179, 7, 45>,
        rgb_type::<179, 179, 179>,
        rgb_type::<180, 7, 45>,
        rgb_type::<180, 180, 180>,
        rgb_type::<181, 7, 45>,
        rgb_type::<181, 181, 181>,
        rgb_type::<182, 7, 45>,
        rgb_type::<182, 182, 182>,
        rgb_type::<183, 7, 45>,
        rgb_type::<183, 183, 183>,
        rgb_type::<184, 7, 45>,
        rgb_type::<184, 134, 11>,
        rgb_type::<184, 184, 184>,
        rgb_type::<185, 7, 45>,
        rgb_type::<185, 185, 185>,
        rgb_type::<186, 7, 45>,
        rgb_type::<186, 85, 211>,
        rgb_type::<186, 186, 186>,
        rgb_type::<187, 7, 45>,
        rgb_type::<187, 187, 187>,
        rgb_type::<188, 7, 45>,
        rgb_type::<188, 143, 143>,
        rgb_type::<188, 188, 188>,
        rgb_type::<189, 7, 45>,
        rgb_type::<189, 183, 107>,
        rgb_type::<189, 189, 189>,
        rgb_type::<190, 7, 45>,
        rgb_type::<190, 190, 190>,
        rgb_type::<191, 7, 45>,
        rgb_type::<191, 191, 191>,
        rgb_type::<192, 0, 0>,
        rgb_type::<192, 0, 128>,
        rgb_type::<192, 0, 192>,
        rgb_type::<192, 7, 45>,
        rgb_type::<192, 128, 0>,
        rgb_type::<192, 128, 128>,
        rgb_type::<192, 128, 192>,
        rgb_type::<192, 192, 0>,
        rgb_type::<192, 192, 128>,
        rgb_type::<192, 192, 192>,
        rgb_type::<193, 7, 45>,
        rgb_type::<193, 193, 193>,
        rgb_type::<194, 7, 45>,
        rgb_type::<194, 194, 194>,
        rgb_type::<195, 7, 45>,
        rgb_type::<195, 195, 195>,
        rgb_type::<196, 7, 45>,
        rgb_type::<196, 196, 196>,
        rgb_type::<197, 7, 45>,
        rgb_type::<197, 197, 197>,
        rgb_type::<198, 7, 45>,
        rgb_type::<198, 198, 198>,
        rgb_type::<199, 0, 0>,
        rgb_type::<199, 0, 9>,
        rgb_type::<199, 0, 10>,
        rgb_type::<199, 0, 99>,
        rgb_type::<199, 0, 100>,
        rgb_type::<199, 0, 199>,
        rgb_type::<199, 0, 200>,
        rgb_type::<199, 0, 255>,
        rgb_type::<199, 7, 45>,
        rgb_type::<199, 9, 0>,
        rgb_type::<199, 9, 9>,
        rgb_type::<199, 9, 10>,
        rgb_type::<199, 9, 99>,
        rgb_type::<199, 9, 100>,
        rgb_type::<199, 9, 199>,
        rgb_type::<199, 9, 200>,
        rgb_type::<199, 9, 255>,
        rgb_type::<199, 10, 0>,
        rgb_type::<199, 10, 9>,
        rgb_type::<199, 10, 10>,
        rgb_type::<199, 10, 99>,
        rgb_type::<199, 10, 100>,
        rgb_type::<199, 10, 199>,
        rgb_type::<199, 10, 200>,
        rgb_type::<199, 10, 255>,
        rgb_type::<199, 21, 133>,
        rgb_type::<199, 99, 0>,
        rgb_type::<199, 99, 9>,
        rgb_type::<199, 99, 10>,
        rgb_type::<199, 99, 99>,
        rgb_type::<199, 99, 100>,
        rgb_type::<199, 99, 199>,
        rgb_type::<199, 99, 200>,
        rgb_type::<199, 99, 255>,
        rgb_type::<199, 100, 0>,
        rgb_type::<199, 100, 9>,
        rgb_type::<199, 100, 10>,
        rgb_type::<199, 100, 99>,
        rgb_type::<199, 100, 100>,
        rgb_type::<199, 100, 199>,
        rgb_type::<199, 100, 200>,
        rgb_type::<199, 100, 255>,
        rgb_type::<199, 199, 0>,
        rgb_type::<199, 199, 9>,
        rgb_type::<199, 199, 10>,
        rgb_type::<199, 199, 99>,
        rgb_type::<199, 199, 100>,
        rgb_type::<199, 199, 199>,
        rgb_type::<199, 199, 200>,
        rgb_type::<199, 199, 255>,
        rgb_type::<199, 200, 0>,
        rgb_type::<199, 200, 9>,
        rgb_type::<199, 200, 10>,
        rgb_type::<199, 200, 99>,
        rgb_type::<199, 200, 100>,
        rgb_type::<199, 200, 199>,
        rgb_type::<199, 200, 200>,
        rgb_type::<199, 200, 255>,
        rgb_type::<199, 255, 0>,
        rgb_type::<199, 255, 9>,
        rgb_type::<199, 255, 10>,
        rgb_type::<199, 255, 99>,
        rgb_type::<199, 255, 100>,
        rgb_type::<199, 255, 199>,
        rgb_type::<199, 255, 200>,
        rgb_type::<199, 255, 255>,
        rgb_type::<200, 0, 0>,
        rgb_type::<200, 0, 9>,
        rgb_type::<200, 0, 10>,
        rgb_type::<200, 0, 99>,
        rgb_type::<200, 0, 100>,
        rgb_type::<200, 0, 199>,
        rgb_type::<200, 0, 200>,
        rgb_type::<200, 0, 255>,
        rgb_type::<200, 7, 45>,
        rgb_type::<200, 9, 0>,
        rgb_type::<200, 9, 9>,
        rgb_type::<200, 9, 10>,
        rgb_type::<200, 9, 99>,
        rgb_type::<200, 9, 100>,
        rgb_type::<200, 9, 199>,
        rgb_type::<200, 9, 200>,
        rgb_type::<200, 9, 255>,
        rgb_type::<200, 10, 0>,
        rgb_type::<200, 10, 9>,
        rgb_type::<200, 10, 10>,
        rgb_type::<200, 10, 99>,
        rgb_type::<200, 10, 100>,
        rgb_type::<200, 10, 199>,
        rgb_type::<200, 10, 200>,
        rgb_type::<200, 10, 255>,
        rgb_type::<200, 99, 0>,
        rgb_type::<200, 99, 9>,
        rgb_type::<200, 99, 10>,
        rgb_type::<200, 99, 99>,
        rgb_type::<200, 99, 100>,
        rgb_type::<200, 99, 199>,
        rgb_type::<200, 99, 200>,
        rgb_type::<200, 99, 255>,
        rgb_type::<200, 100, 0>,
        rgb_type::<200, 100, 9>,
        rgb_type::<200, 100, 10>,
        rgb_type::<200, 100, 99>,
        rgb_type::<200, 100, 100>,
        rgb_type::<200, 100, 199>,
        rgb_type::<200, 100, 200>,
        rgb_type::<200, 100, 255>,
        rgb_type::<200, 199, 0>,
        rgb_type::<200, 199, 9>,
        rgb_type::<200, 199, 10>,
        rgb_type::<200, 199, 99>,
        rgb_type::<200, 199, 100>,
        rgb_type::<200, 199, 199>,
        rgb_type::<200, 199, 200>,
        rgb_type::<200, 199, 255>,
        rgb_type::<200, 200, 0>,
        rgb_type::<200, 200, 9>,
        rgb_type::<200, 200, 10>,
        rgb_type::<200, 200, 99>,
        rgb_type::<200, 200, 100>,
        rgb_type::<200, 200, 199>,
        rgb_type::<200, 200, 200>,
        rgb_type::<200, 200, 255>,
        rgb_type::<200, 255, 0>,
        rgb_type::<200, 255, 9>,
        rgb_type::<200, 255, 10>,
        rgb_type::<200, 255, 99>,
        rgb_type::<200, 255, 100>,
        rgb_type::<200, 255, 199>,
        rgb_type::<200, 255, 200>,
        rgb_type::<200, 255, 255>,
        rgb_type::<201, 7, 45>,
        rgb_type::<201, 201, 201>,
        rgb_type::<202, 7, 45>,
        rgb_type::<202, 202, 202>,
        rgb_type::<203, 7, 45>,
        rgb_type::<203, 203, 203>,
        rgb_type::<204, 7, 45>,
        rgb_type::<204, 204, 204>,
        rgb_type::<205, 7, 45>,
        rgb_type::<205, 92, 92>,
        rgb_type::<205, 133, 63>,
        rgb_type::<205, 205, 205>,
        rgb_type::<206, 7, 45>,
        rgb_type::<206, 206, 206>,
        rgb_type::<207, 7, 45>,
        rgb_type::<207, 207, 207>,
        rgb_type::<208, 7, 45>,
        rgb_type::<208, 208, 208>,
        rgb_type::<209, 7, 45>,
        rgb_type::<209, 209, 209>,
        rgb_type::<210, 7, 45>,
        rgb_type::<210, 105, 30>,
        rgb_type::<210, 180, 140>,
        rgb_type::<210, 210, 210>,
        rgb_type::<211, 7, 45>,
        rgb_type::<211, 211, 211>,
        rgb_type::<212, 7, 45>,
        rgb_type::<212, 212, 212>,
        rgb_type::<213, 7, 45>,
        rgb_type::<213, 213, 213>,
        rgb_type::<214, 7, 45>,
        rgb_type::<214, 214, 214>,
        rgb_type::<215, 0, 0>,
        rgb_type::<215, 0, 95>,
        rgb_type::<215, 0, 135>,
        rgb_type::<215, 0, 175>,
        rgb_type::<215, 0, 215>,
        rgb_type::<215, 0, 255>,
        rgb_type::<215, 7, 45>,
        rgb_type::<215, 95, 0>,
        rgb_type::<215, 95, 95>,
        rgb_type::<215, 95, 135>,
        rgb_type::<215, 95, 175>,
        rgb_type::<215, 95, 215>,
        rgb_type::<215, 95, 255>,
        rgb_type::<215, 135, 0>,
        rgb_type::<215, 135, 95>,
        rgb_type::<215, 135, 135>,
        rgb_type::<215, 135, 175>,
        rgb_type::<215, 135, 215>,
        rgb_type::<215, 135, 255>,
        rgb_type::<215, 175, 0>,
        rgb_type::<215, 175, 95>,
        rgb_type::<215, 175, 135>,
        rgb_type::<215, 175, 175>,
        rgb_type::<215, 175, 215>,
        rgb_type::<215, 175, 255>,
        rgb_type::<215, 215, 0>,
        rgb_type::<215, 215, 95>,
        rgb_type::<215, 215, 135>,
        rgb_type::<215, 215, 175>,
        rgb_type::<215, 215, 215>,
        rgb_type::<215, 215, 255>,
        rgb_type::<215, 255, 0>,
        rgb_type::<215, 255, 95>,
        rgb_type::<215, 255, 135>,
        rgb_type::<215, 255, 175>,
        rgb_type::<215, 255, 215>,
        rgb_type::<215, 255, 255>,
        rgb_type::<216, 7, 45>,
        rgb_type::<216, 191, 216>,
        rgb_type::<216, 216, 216>,
        rgb_type::<217, 7, 45>,
        rgb_type::<217, 217, 217>,
        rgb_type::<218, 7, 45>,
        rgb_type::<218, 112, 214>,
        rgb_type::<218, 165, 32>,
        rgb_type::<218, 218, 218>,
        rgb_type::<219, 7, 45>,
        rgb_type::<219, 112, 147>,
        rgb_type::<219, 219, 219>,
        rgb_type::<220, 7, 45>,
        rgb_type::<220, 20, 60>,
        rgb_type::<220, 220, 220>,
        rgb_type::<221, 7, 45>,
        rgb_type::<221, 160, 221>,
        rgb_type::<221, 221, 221>,
        rgb_type::<222, 7, 45>,
        rgb_type::<222, 184, 135>,
        rgb_type::<222, 222, 222>,
        rgb_type::<223, 7, 45>,
        rgb_type::<223, 223, 223>,
        rgb_type::<224, 7, 45>,
        rgb_type::<224, 224, 224>,
        rgb_type::<224, 255, 255>,
        rgb_type::<225, 7, 45>,
        rgb_type::<225, 225, 225>,
        rgb_type::<226, 7, 45>,
        rgb_type::<226, 226, 226>,
        rgb_type::<227, 7, 45>,
        rgb_type::<227, 227, 227>,
        rgb_type::<228, 7, 45>,
        rgb_type::<228, 228, 228>,
        rgb_type::<229, 7, 45>,
        rgb_type::<229, 229, 229>,
        rgb_type::<230, 7, 45>,
        rgb_type::<230, 230, 230>,
        rgb_type::<230, 230, 250>,
        rgb_type::<231, 7, 45>,
        rgb_type::<231, 231, 231>,
        rgb_type::<232, 7, 45>,
        rgb_type::<232, 232, 232>,
        rgb_type::<233, 7, 45>,
        rgb_type::<233, 150, 122>,
        rgb_type::<233, 233, 233>,
        rgb_type::<234, 7, 45>,
        rgb_type::<234, 234, 234>,
        rgb_type::<235, 7, 45>,
        rgb_type::<235, 235, 235>,
        rgb_type::<236, 7, 45>,
        rgb_type::<236, 236, 236>,
        rgb_type::<237, 7, 45>,
        rgb_type::<237, 237, 237>,
        rgb_type::<238, 7, 45>,
        rgb_type::<238, 130, 238>,
        rgb_type::<238, 232, 170>,
        rgb_type::<238, 238, 238>,
        rgb_type::<239, 7, 45>,
        rgb_type::<239, 239, 239>,
        rgb_type::<240, 7, 45>,
        rgb_type::<240, 128, 128>,
        rgb_type::<240, 230, 140>,
        rgb_type::<240, 240, 240>,
        rgb_type::<240, 248, 255>,
        rgb_type::<240, 255, 240>,
        rgb_type::<240, 255, 255>,
        rgb_type::<241, 7, 45>,
        rgb_type::<241, 241, 241>,
        rgb_type::<242, 7, 45>,
        rgb_type::<242, 242, 242>,
        rgb_type::<243, 7, 45>,
        rgb_type::<243, 243, 243>,
        rgb_type::<244, 7, 45>,
        rgb_type::<244, 164, 96>,
        rgb_type::<244, 244, 244>,
        rgb_type::<245, 7, 45>,
        rgb_type::<245, 222, 179>,
        rgb_type::<245, 245, 220>,
        rgb_type::<245, 245, 245>,
        rgb_type::<245, 255, 250>,
        rgb_type::<246, 7, 45>,
        rgb_type::<246, 246, 246>,
        rgb_type::<247, 7, 45>,
        rgb_type::<247, 247, 247>,
        rgb_type::<248, 7, 45>,
        rgb_type::<248, 248, 248>,
        rgb_type::<248, 248, 255>,
        rgb_type::<249, 7, 45>,
        rgb_type::<249, 249, 249>,
        rgb_type::<250, 7, 45>,
        rgb_type::<250, 128, 114>,
        rgb_type::<250, 235, 215>,
        rgb_type::<250, 240, 230>,
        rgb_type::<250, 250, 210>,
        rgb_type::<250, 250, 250>,
        rgb_type::<251, 7, 45>,
        rgb_type::<251, 251, 251>,
        rgb_type::<252, 7, 45>,
        rgb_type::<252, 252, 252>,
        rgb_type::<253, 7, 45>,
        rgb_type::<253, 245, 230>,
        rgb_type::<253, 253, 253>,
        rgb_type::<254, 7, 45>,
        rgb_type::<254, 254, 254>,
        rgb_type::<255, 0, 0>,
        rgb_type::<255, 0, 9>,
        rgb_type::<255, 0, 10>,
        rgb_type::<255, 0, 95>,
        rgb_type::<255, 0, 99>,
        rgb_type::<255, 0, 100>,
        rgb_type::<255, 0, 135>,
        rgb_type::<255, 0, 175>,
        rgb_type::<255, 0, 199>,
        rgb_type::<255, 0, 200>,
        rgb_type::<255, 0, 215>,
        rgb_type::<255, 0, 255>,
        rgb_type::<255, 7, 45>,
        rgb_type::<255, 9, 0>,
        rgb_type::<255, 9, 9>,
        rgb_type::<255, 9, 10>,
        rgb_type::<255, 9, 99>,
        rgb_type::<255, 9, 100>,
        rgb_type::<255, 9, 199>,
        rgb_type::<255, 9, 200>,
        rgb_type::<255, 9, 255>,
        rgb_type::<255, 10, 0>,
        rgb_type::<255, 10, 9>,
        rgb_type::<255, 10, 10>,
        rgb_type::<255, 10, 99>,
        rgb_type::<255, 10, 100>,
        rgb_type::<255, 10, 199>,
        rgb_type::<255, 10, 200>,
        rgb_type::<255, 10, 255>,
        rgb_type::<255, 20, 147>,
        rgb_type::<255, 69, 0>,
        rgb_type::<255, 95, 0>,
        rgb_type::<255, 95, 95>,
        rgb_type::<255, 95, 135>,
        rgb_type::<255, 95, 175>,
        rgb_type::<255, 95, 215>,
        rgb_type::<255, 95, 255>,
        rgb_type::<255, 99, 0>,
        rgb_type::<255, 99, 9>,
        rgb_type::<255, 99, 10>,
        rgb_type::<255, 99, 71>,
        rgb_type::<255, 99, 99>,
        rgb_type::<255, 99, 100>,
        rgb_type::<255, 99, 199>,
        rgb_type::<255, 99, 200>,
        rgb_type::<255, 99, 255>,
        rgb_type::<255, 100, 0>,
        rgb_type::<255, 100, 9>,
        rgb_type::<255, 100, 10>,
        rgb_type::<255, 100, 99>,
        rgb_type::<255, 100, 100>,
        rgb_type::<255, 100, 199>,
        rgb_type::<255, 100, 200>,
        rgb_type::<255, 100, 255>,
        rgb_type::<255, 105, 180>,
        rgb_type::<255, 127, 80>,
        rgb_type::<255, 135, 0>,
        rgb_type::<255, 135, 95>,
        rgb_type::<255, 135, 135>,
        rgb_type::<255, 135, 175>,
        rgb_type::<255, 135, 215>,
        rgb_type::<255, 135, 255>,
        rgb_type::<255, 140, 0>,
        rgb_type::<255, 160, 122>,
        rgb_type::<255, 165, 0>,
        rgb_type::<255, 175, 0>,
        rgb_type::<255, 175, 95>,
        rgb_type::<255, 175, 135>,
        rgb_type::<255, 175, 175>,
        rgb_type::<255, 175, 215>,
        rgb_type::<255, 175, 255>,
        rgb_type::<255, 182, 193>,
        rgb_type::<255, 192, 203>,
        rgb_type::<255, 199, 0>,
        rgb_type::<255, 199, 9>,
        rgb_type::<255, 199, 10>,
        rgb_type::<255, 199, 99>,
        rgb_type::<255, 199, 100>,
        rgb_type::<255, 199, 199>,
        rgb_type::<255, 199, 200>,
        rgb_type::<255, 199, 255>,
        rgb_type::<255, 200, 0>,
        rgb_type::<255, 200, 9>,
        rgb_type::<255, 200, 10>,
        rgb_type::<255, 200, 99>,
        rgb_type::<255, 200, 100>,
        rgb_type::<255, 200, 199>,
        rgb_type::<255, 200, 200>,
        rgb_type::<255, 200, 255>,
        rgb_type::<255, 215, 0>,
        rgb_type::<255, 215, 95>,
        rgb_type::<255, 215, 135>,
        rgb_type::<255, 215, 175>,
        rgb_type::<255, 215, 215>,
        rgb_type::<255, 215, 255>,
        rgb_type::<255, 218, 185>,
        rgb_type::<255, 222, 173>,
        rgb_type::<255, 228, 181>,
        rgb_type::<255, 228, 196>,
        rgb_type::<255, 228, 225>,
        rgb_type::<255, 235, 205>,
        rgb_type::<255, 239, 213>,
        rgb_type::<255, 240, 245>,
        rgb_type::<255, 245, 238>,
        rgb_type::<255, 248, 220>,
        rgb_type::<255, 250, 205>,
        rgb_type::<255, 250, 240>,
        rgb_type::<255, 250, 250>,
        rgb_type::<255, 255, 0>,
        rgb_type::<255, 255, 9>,
        rgb_type::<255, 255, 10>,
        rgb_type::<255, 255, 95>,
        rgb_type::<255, 255, 99>,
        rgb_type::<255, 255, 100>,
        rgb_type::<255, 255, 135>,
        rgb_type::<255, 255, 175>,
        rgb_type::<255, 255, 199>,
        rgb_type::<255, 255, 200>,
        rgb_type::<255, 255, 215>,
        rgb_type::<255, 255, 224>,
        rgb_type::<255, 255, 240>,
        rgb_type::<255, 255, 255>,
    ]
}

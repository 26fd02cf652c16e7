# dumps, for the code points assigned in Unicode 13, properties from perl's Unicode 15 tables
use strict; use warnings; use Unicode::UCD qw(prop_invmap);
no warnings;
sub dump_prop { my ($prop,$file)=@_;
  my ($l,$m,$fmt,$def)=prop_invmap($prop);
  open my $f,'>',$file or die;
  for my $i (0..$#$l){ my $e = $i<$#$l ? $l->[$i+1]-1 : 0x10FFFF; next if $l->[$i]>0x10FFFF; my $v=$m->[$i]; $v = join(' ',map{sprintf "%X",$_} @$v) if ref $v;
    print $f sprintf("%X %X %s\n",$l->[$i],$e,$v); }
  close $f;
}
dump_prop($ARGV[0],$ARGV[1]);
